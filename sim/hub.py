"""A model hub inside the simulation.

The server's state (repositories, branches, commits, blobs) is a directory outside the reach of
the disk faults; every request of the client is a numbered step at which a fault may strike:

    before   the request is lost, no effect            after    it takes effect, the answer is lost
    partial  half of a transfer arrives                intr     Ctrl-C while waiting, no effect
    die      the client dies before the request        die_after  ... after its effect

Runs in hosts (Client) and in oracles (read).
"""

import fnmatch
import json
import os
import random
import shutil

from . import sched


class HubError(OSError):
    """The hub answers with an error: no such repository, no permission, ..."""


TOKENS = {"hf_alice": "alice", "hf_bob": "bob"}
MAY_WRITE = {"alice": ["alice", "lab"], "bob": ["bob", "lab"]}


def read(hub):
    p = os.path.join(hub, "state.json")
    return json.load(open(p)) if os.path.exists(p) else {"repos": {}, "requests": []}


def blob(hub, name):
    return open(os.path.join(hub, "blobs", name), "rb").read()


def tree(hub, repo, rev="main"):
    """{path: bytes} of a revision, None when there is none."""
    r = read(hub)["repos"].get(repo)
    if r is None:
        return None
    oid = r["refs"].get(rev, rev)
    for c in r["commits"]:
        if c["oid"] == oid:
            return {p: blob(hub, b) for p, b in c["files"].items()}
    return None


class Url(str):
    pass


class Info:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Server:
    """One client's view of the hub: faults by request number."""

    def __init__(self, hub, cache, faults=(), seed=0, login=None):
        self.hub, self.cache, self.faults, self.login = hub, cache, [tuple(f) for f in faults], login
        self.rng = random.Random(seed)
        self.no = 0
        self.struck = []
        self.log = []
        os.makedirs(os.path.join(hub, "blobs"), exist_ok=True)

    # -- state
    def get(self):
        return read(self.hub)

    def put(self, state):
        p = os.path.join(self.hub, "state.json")
        with open(p + f".{os.getpid()}", "w") as f:
            json.dump(state, f)
        os.replace(p + f".{os.getpid()}", p)

    # -- one request
    def request(self, what, token, effect, half=None):
        """effect() happens at the server; half() is what a cut-off transfer leaves."""
        sim = sched.SIM
        if sim is not None and sched._get_ident() in sim.by_ident:
            sim.preempt()
        self.no += 1
        kind = next((k for at, k in self.faults if at == self.no), None)
        self.log.append([self.no, what, token if isinstance(token, str) else repr(token), kind or "-"])
        if kind:
            self.struck.append([self.no, what, kind])
        if kind == "before":
            raise ConnectionError(104, f"injected: {what} lost")
        if kind == "intr":
            raise KeyboardInterrupt(f"injected during {what}")
        if kind == "die":
            self.die()
        if kind == "partial":
            if half:
                half()
            raise ConnectionError(104, f"injected: {what} cut off")
        out = effect()
        if kind == "die_after":
            self.die()
        if kind == "after":
            raise TimeoutError(110, f"injected: no answer to {what}")
        return out

    def die(self):
        with open(os.path.join(self.hub, "log.json"), "w") as f:
            json.dump([self.no, self.struck, self.log], f)
        os._exit(77)

    # -- rights
    def user(self, token):
        t = token if isinstance(token, str) else (None if token is False else self.login)
        if t is not None and t not in TOKENS:
            raise HubError(401, "invalid token")
        return TOKENS.get(t)

    def full(self, repo_id, user):
        return repo_id if "/" in repo_id else f"{user}/{repo_id}"

    def repo(self, state, repo_id, token):
        user = self.user(token)
        r = state["repos"].get(repo_id)
        if r is None or (r["private"] and repo_id.split("/")[0] not in MAY_WRITE.get(user, [])):
            raise HubError(404, f"repository {repo_id} not found")
        return r

    # -- operations
    def create_repo(self, repo_id, token, private, repo_type, exist_ok):
        def effect():
            st = self.get()
            user = self.user(token)
            name = self.full(repo_id, user)
            if name.split("/")[0] not in MAY_WRITE.get(user, []):
                raise HubError(403, f"{user} may not write {name}")
            if name in st["repos"]:
                if not exist_ok:
                    raise HubError(409, f"{name} exists")
            else:
                st["repos"][name] = {"private": bool(private), "type": repo_type or "model", "refs": {"main": "c0", "dev": "c0"}, "commits": [
                    {"oid": "c0", "files": {}, "message": "initial commit", "branch": "main"}]}
                self.put(st)
            u = Url("https://hub.invalid/" + name)
            u.repo_id, u.repo_type, u.repo_name, u.namespace = name, repo_type or "model", name.split("/")[1], name.split("/")[0]
            u.url, u.endpoint = str(u), "https://hub.invalid"
            return u
        return self.request("create_repo", token, effect)

    def check_write(self, repo_id, token):
        st = self.get()
        self.repo(st, repo_id, token)
        if repo_id.split("/")[0] not in MAY_WRITE.get(self.user(token), []):
            raise HubError(403, "no write access")

    def commit(self, repo_id, files, token, message, revision, delete=()):
        """files: [(path in repo, function giving the bytes)]"""
        self.request("preupload", token, lambda: self.check_write(repo_id, token))
        added = {}
        files = sorted(files, key=lambda f: f[0])
        self.rng.shuffle(files)
        for path, source in files:
            data = source()
            name = f"{self.rng.getrandbits(64):016x}"

            def effect(data=data, name=name):
                with open(os.path.join(self.hub, "blobs", name), "wb") as f:
                    f.write(data)
            self.request(f"upload {path}", token, effect, half=lambda: None)
            added[path] = name

        def effect2():
            st = self.get()
            r = self.repo(st, repo_id, token)
            ref = revision or "main"
            if ref not in r["refs"]:
                raise HubError(404, f"no branch {ref}")
            head = next(c for c in r["commits"] if c["oid"] == r["refs"][ref])
            kept = {p: b for p, b in head["files"].items() if not any(fnmatch.fnmatch(p, d) for d in delete)}
            oid = f"c{len(r['commits'])}"
            r["commits"].append({"oid": oid, "files": {**kept, **added}, "message": message, "branch": ref})
            r["refs"][ref] = oid
            self.put(st)
            return Info(oid=oid, commit_url=f"https://hub.invalid/{repo_id}/commit/{oid}", commit_message=message)
        return self.request("commit", token, effect2)

    def info(self, repo_id, token, revision=None):
        def effect():
            r = self.repo(self.get(), repo_id, token)
            rev = revision or "main"
            oid = r["refs"].get(rev, rev)
            for c in r["commits"]:
                if c["oid"] == oid:
                    return Info(id=repo_id, sha=oid, private=r["private"], files=dict(c["files"]),
                                siblings=[Info(rfilename=p) for p in c["files"]])
            raise HubError(404, f"no revision {rev}")
        return self.request("repo_info", token, effect)

    def fetch(self, repo_id, info, path, token, dest):
        """One file of a revision; it appears under its name when it is complete."""
        data = blob(self.hub, info.files[path])
        if os.path.exists(dest) and open(dest, "rb").read() == data:
            return dest
        os.makedirs(os.path.dirname(dest), exist_ok=True)
        part = f"{dest}.{self.no}.incomplete"

        def write(data):
            with open(part, "wb") as f:
                f.write(data)

        def effect():
            self.repo(self.get(), repo_id, token)
            write(data)
            os.replace(part, dest)
        self.request(f"download {path}", token, effect, half=lambda: write(data[:len(data) // 2]))
        return dest


class Client:
    """Stands in for huggingface_hub.HfApi."""

    server = None

    def __init__(self, endpoint=None, token=None, **kw):
        self.endpoint, self.token = endpoint, token

    def _t(self, token):
        return self.token if token is None else token

    def create_repo(self, repo_id, *, token=None, private=None, visibility=None, repo_type=None, exist_ok=False, **kw):
        if visibility is not None:
            private = visibility == "private"
        return self.server.create_repo(repo_id, self._t(token), private, repo_type, exist_ok)

    def _pick(self, paths, allow, ignore):
        as_list = lambda x: [x] if isinstance(x, str) else list(x)  # noqa: E731
        if allow is not None:
            paths = [p for p in paths if any(fnmatch.fnmatch(p, a) for a in as_list(allow))]
        if ignore is not None:
            paths = [p for p in paths if not any(fnmatch.fnmatch(p, a) for a in as_list(ignore))]
        return paths

    def upload_folder(self, *, repo_id, folder_path, path_in_repo=None, commit_message=None, commit_description=None, token=None,
                      repo_type=None, revision=None, create_pr=None, parent_commit=None, allow_patterns=None, ignore_patterns=None,
                      delete_patterns=None, run_as_future=False, **kw):
        folder = os.path.expanduser(os.fspath(folder_path))
        if not os.path.isdir(folder):
            raise ValueError(f"Provided path: '{folder}' is not a directory")
        paths = []
        for base, _, names in os.walk(folder):
            paths += [os.path.relpath(os.path.join(base, n), folder) for n in names]
        paths = self._pick(paths, allow_patterns, ignore_patterns)

        def source(p):
            with open(os.path.join(folder, p), "rb") as f:
                return f.read()
        pre = (path_in_repo.strip("/") + "/") if path_in_repo and path_in_repo not in (".", "./") else ""
        delete = [delete_patterns] if isinstance(delete_patterns, str) else list(delete_patterns or [])
        return self.server.commit(repo_id, [(pre + p, lambda p=p: source(p)) for p in paths], self._t(token), commit_message, revision, delete)

    def upload_file(self, *, path_or_fileobj, path_in_repo, repo_id, token=None, repo_type=None, revision=None, commit_message=None, **kw):
        def source():
            if isinstance(path_or_fileobj, bytes):
                return path_or_fileobj
            if hasattr(path_or_fileobj, "read"):
                return path_or_fileobj.read()
            return open(path_or_fileobj, "rb").read()
        return self.server.commit(repo_id, [(path_in_repo, source)], self._t(token), commit_message, revision)

    def repo_info(self, repo_id, *, revision=None, repo_type=None, token=None, **kw):
        return self.server.info(repo_id, self._t(token), revision)

    model_info = repo_info

    def repo_exists(self, repo_id, *, repo_type=None, token=None):
        try:
            self.repo_info(repo_id, token=token)
            return True
        except HubError:
            return False

    def list_repo_files(self, repo_id, *, revision=None, repo_type=None, token=None):
        return sorted(self.repo_info(repo_id, revision=revision, token=token).files)

    def file_exists(self, repo_id, filename, *, repo_type=None, revision=None, token=None):
        return filename in self.list_repo_files(repo_id, revision=revision, token=token)

    def _folder(self, repo_id, info, local_dir, cache_dir=None):
        if local_dir is not None:
            return os.path.realpath(os.path.expanduser(os.fspath(local_dir)))
        return os.path.join(os.fspath(cache_dir or self.server.cache), "models--" + repo_id.replace("/", "--"), "snapshots", info.sha)

    def snapshot_download(self, repo_id, *, repo_type=None, revision=None, cache_dir=None, local_dir=None, token=None,
                          allow_patterns=None, ignore_patterns=None, **kw):
        info = self.repo_info(repo_id, revision=revision, token=token)
        folder = self._folder(repo_id, info, local_dir, cache_dir)
        os.makedirs(folder, exist_ok=True)
        paths = sorted(self._pick(list(info.files), allow_patterns, ignore_patterns))
        self.server.rng.shuffle(paths)
        for p in paths:
            self.server.fetch(repo_id, info, p, self._t(token), os.path.join(folder, p))
        return folder

    def hf_hub_download(self, repo_id, filename, *, subfolder=None, repo_type=None, revision=None, cache_dir=None, local_dir=None,
                        token=None, **kw):
        info = self.repo_info(repo_id, revision=revision, token=token)
        path = f"{subfolder}/{filename}" if subfolder else filename
        if path not in info.files:
            raise HubError(404, f"no file {path}")
        return self.server.fetch(repo_id, info, path, self._t(token), os.path.join(self._folder(repo_id, info, local_dir, cache_dir), path))


def install(server):
    """Put the stand-in wherever the code may take the client from."""
    import huggingface_hub
    import huggingface_hub.hf_api
    import bm25s.hf
    cls = type("HfApi", (Client,), {"server": server})
    for mod in (bm25s.hf, huggingface_hub, huggingface_hub.hf_api):
        mod.HfApi = cls
    api = cls()
    for name in ("create_repo", "upload_folder", "upload_file", "repo_info", "model_info", "repo_exists", "list_repo_files", "file_exists",
                 "snapshot_download", "hf_hub_download"):
        for mod in (huggingface_hub, huggingface_hub.hf_api):
            setattr(mod, name, getattr(api, name))
        if hasattr(bm25s.hf, name):
            setattr(bm25s.hf, name, getattr(api, name))
    return server


def wipe(path):
    shutil.rmtree(path, ignore_errors=True)


class Names:
    """Where a case keeps things."""

    def __init__(self, root):
        self.work = os.path.join(root, "work")
        self.hub = os.path.join(root, "hub")
        self.tmp = os.path.join(self.work, "tmp")
        self.cache = os.path.join(self.work, "hfcache")
        for d in (self.work, self.hub, self.tmp, self.cache, os.path.join(self.hub, "blobs")):
            os.makedirs(d, exist_ok=True)
            os.chmod(d, 0o777)
