"""C24: results do not depend on the user's environment"""
import os

from hypothesis import strategies as st

from .. import edits, execmain, gen, store
from .. import model as m
from ..core import CaseDir, same, session
from ..gitx import all_objects, all_refs, mkrepo, read_object, snapshot

PROPERTY = "C24"
LEVEL = "exploration"
NOTE = ("Metamorphic: the same generated history of changes is executed on equal repositories in a reference environment and, in a fresh interpreter, in "
        "a generated environment; references, sets of stored objects, and everything that is read have to be equal (also reading from a remote "
        "repository and direct storing of texts). Environments and histories are sampled; trusts that git's plumbing honours its documentation.")
QUICK, THOROUGH = 360, 16000
RULE = ("Hypothesis generates a store, a history of up to 8 changes, texts, and an environment: up to 6 git settings from a list of 45 (at one of 5 "
        "places), git attributes for all files, locale variables, umask, hash seed, working directory (11 kinds), form of the repository path (8 "
        "kinds), and temporary directory (5 kinds). Non-trivial: at least 3 parts of the environment differ from the reference environment and the "
        "store or the history is not empty.")
ASSUMPTIONS = ["settings that redirect, forbid or restrict transport, or name other repositories or object formats, are not varied",
               "environment variables that redirect git to another repository or object store are not set",
               "in a locale that cannot represent them, paths of repositories are plain ASCII"]

SETTINGS = [
    ("core.autocrlf", "true"), ("core.autocrlf", "input"), ("core.safecrlf", "true"), ("core.eol", "crlf"), ("core.quotePath", "false"),
    ("core.quotePath", "true"), ("color.ui", "always"), ("color.ui", "never"), ("core.pager", "false"), ("core.pager", "cat -n"), ("pager.show", "tac"),
    ("pager.ls-tree", "true"), ("pager.cat-file", "true"), ("alias.show", "!false"), ("alias.cat-file", "!false"), ("alias.mktree", "status"),
    ("core.abbrev", "5"), ("core.bigFileThreshold", "1"), ("core.compression", "0"), ("core.looseCompression", "9"), ("core.ignoreCase", "true"),
    ("core.precomposeUnicode", "true"), ("core.protectNTFS", "true"), ("core.protectHFS", "true"), ("core.fileMode", "false"), ("core.symlinks", "false"),
    ("core.logAllRefUpdates", "always"), ("core.logAllRefUpdates", "false"), ("core.warnAmbiguousRefs", "true"), ("core.sharedRepository", "group"),
    ("core.fsync", "all"), ("core.commentChar", "@"), ("core.whitespace", "cr-at-eol"), ("i18n.logOutputEncoding", "ISO-8859-1"),
    ("i18n.commitEncoding", "ISO-8859-1"), ("log.showSignature", "true"), ("log.decorate", "full"), ("log.date", "iso"), ("format.pretty", "oneline"),
    ("diff.noprefix", "true"), ("diff.external", "false"), ("diff.mnemonicPrefix", "true"), ("submodule.recurse", "true"), ("fetch.prune", "true"),
    ("fetch.pruneTags", "true"), ("fetch.unpackLimit", "1"), ("init.defaultBranch", "other"), ("user.useConfigOnly", "true"),
    ("feature.manyFiles", "true"), ("advice.objectNameWarning", "true"), ("column.ui", "always"), ("grep.lineNumber", "true"), ("gc.pruneExpire", "now"),
    ("commit.gpgSign", "true"), ("tag.gpgSign", "true"), ("help.autocorrect", "1"), ("core.attributesFile", None)]
ATTRIBUTES = ["* text=auto eol=crlf", "* text", "* filter=x", "* ident", "* working-tree-encoding=UTF-16", "* diff=x", "* -text", "* binary", "* crlf"]
LOCALES = [{"LC_ALL": "C"}, {"LC_ALL": "POSIX"}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C.UTF-8", "PYTHONUTF8": "0"},
           {"LC_ALL": "no_such_LOCALE"}, {"LANG": None, "LC_ALL": None}, {"LC_CTYPE": "C", "LANG": "C.UTF-8"},
           {"LC_ALL": "C.UTF-8", "LANGUAGE": "de:fr"}, {"LC_ALL": "C.UTF-8", "PYTHONIOENCODING": "ascii"}]
ASCII = [0, 1, 2, 4, 5, 6]
OTHER = [{"TERM": "xterm-256color", "CLICOLOR_FORCE": "1"}, {"GIT_PAGER": "false"}, {"PAGER": "tac"}, {"TZ": "Asia/Kolkata"}, {"COLUMNS": "10"},
         {"GIT_TRACE": "1"}, {"GIT_LITERAL_PATHSPECS": "1"}, {"PYTHONOPTIMIZE": None}, {"GIT_ADVICE": "0"}, {"GIT_OPTIONAL_LOCKS": "0"}, {"EDITOR": "false"},
         {"GIT_QUARANTINE_PATH": None}, {"GIT_ATTR_NOSYSTEM": "1"}, {"PYTHONWARNINGS": "error::DeprecationWarning:nowhere"}]
CWDS = ["root", "repository", "git dir", "other repository", "odd", "parent", "temporary", "objects", "same"]
SPELLINGS = ["absolute", "relative", "slash", "double slash", "dot", "up", "symlink", "relative dot"]
# Names with characters that are quoted, or that look like a line end to str.splitlines()
ODD_NAMES = ["\u00e4\u2028{}\x85", "\u2029\n{}", "\x0c{}\x1e\t"]
TMPS = ["plain", "space", "in repository", "symlink", "unicode"]


def strategy(tier):
    names = gen.weighted(gen.plain_name, gen.name)
    op = edits.operations(names, "edit")
    maybe = lambda s: gen.weighted(st.none(), s)
    env = st.fixed_dictionaries({
        "settings": st.lists(st.integers(0, len(SETTINGS) - 1), max_size=6, unique=True),
        "attributes": st.lists(st.integers(0, len(ATTRIBUTES) - 1), max_size=3, unique=True),
        "place": st.sampled_from(["global", "home", "xdg", "system", "count"]),
        "locale": maybe(st.integers(0, len(LOCALES) - 1)), "other": st.lists(st.integers(0, len(OTHER) - 1), max_size=2, unique=True),
        "umask": maybe(st.sampled_from([0o077, 0o000, 0o027])), "seed": maybe(st.integers(0, 999)),
        "cwd": gen.weighted(st.just("same"), *[st.sampled_from(CWDS)] * 3), "spelling": gen.weighted(st.just("absolute"), *[st.sampled_from(SPELLINGS)] * 3),
        "tmp": gen.weighted(st.just("plain"), st.sampled_from(TMPS)), "repo": st.sampled_from(["r", "r", "a b", "ä'\"\\", "-x", "r.git"])})
    md = gen.metadata(gen.weighted(gen.small_run, gen.run), 2, 1)
    rec = gen.record(md, gen.file_tree(md, names, 3))
    rich = st.fixed_dictionaries({"tvl": gen.version_list(gen.dataset_tree(rec, names, 2, 1), 2, 1), "uuid": gen.uuid_set(rec, 2)})
    return st.fixed_dictionaries({
        "init": gen.weighted(rich, edits.initial_store(names)), "env": env, "ops": st.lists(op, max_size=8 if tier == "quick" else 20),
        "final": st.sampled_from(["tu", "ut"]), "texts": st.lists(gen.any_text, max_size=3), "remote": gen.weighted(st.just(False), st.just(False), st.just(True))})


# ---------------------------------------------------------- environments

def git_config(case_env, d):
    lines, count = [], []
    entries = [SETTINGS[n] for n in case_env["settings"]]
    if case_env["attributes"]:
        entries.append(("core.attributesFile", None))
    seen = set()
    for key, value in entries:
        if value is None:
            value = d + "/attributes"
        if key not in seen:
            seen.add(key)
            count.append((key, value))
    count += [("filter.x.clean", "tr a-z A-Z"), ("filter.x.smudge", "tr A-Z a-z"), ("filter.x.required", "true"), ("diff.x.textconv", "wc -c")]
    with open(d + "/attributes", "w") as f:
        f.write("".join(ATTRIBUTES[n] + "\n" for n in case_env["attributes"] or [0]))
    for key, value in count:
        section, name = key.rsplit(".", 1)
        if "." in section:
            a, b = section.split(".", 1)
            section = f'{a} "{b}"'
        quoted = value.replace("\\", "\\\\").replace('"', '\\"')
        lines.append(f'[{section}]\n\t{name} = "{quoted}"\n')
    return "".join(lines), count


def environment(case_env, d, realm):
    """-> (environment variables, working directory, path of the repository)"""
    os.makedirs(d + "/home/.config/git")
    result = {"HOME": d + "/home", "XDG_CONFIG_HOME": None, "XDG_CACHE_HOME": d + "/home/cache", "GIT_CONFIG_GLOBAL": None, "GIT_CONFIG_SYSTEM": "/dev/null",
              "GIT_CONFIG_NOSYSTEM": None}
    text, count = git_config(case_env, d)
    place = case_env["place"]
    target = {"global": d + "/config", "home": d + "/home/.gitconfig", "xdg": d + "/home/.config/git/config", "system": d + "/system"}.get(place)
    if target is not None:
        with open(target, "w") as f:
            f.write(text)
        if place == "global":
            result["GIT_CONFIG_GLOBAL"] = target
        elif place == "system":
            result["GIT_CONFIG_SYSTEM"] = target
    else:
        for n, (key, value) in enumerate(count):
            result[f"GIT_CONFIG_KEY_{n}"], result[f"GIT_CONFIG_VALUE_{n}"] = key, value
        result["GIT_CONFIG_COUNT"] = str(len(count))
    if case_env["locale"] is not None:
        result.update(LOCALES[case_env["locale"]])
    for n in case_env["other"]:
        result.update(OTHER[n])
    if case_env["seed"] is not None:
        result["PYTHONHASHSEED"] = str(case_env["seed"])
    # A repository with attributes of its own
    other = mkrepo(d + "/other")
    with open(other + "/.gitattributes", "w") as f:
        f.write("* text eol=crlf filter=x ident\n")
    plain = ascii_only(case_env)
    tmp = {"plain": d + "/tmp", "space": d + "/t m p", "in repository": other + "/tmp", "symlink": d + "/tmplink",
           "unicode": d + ("/tmp" if plain else "/t\u00e4mp")}[case_env["tmp"]]
    if case_env["tmp"] == "symlink":
        os.makedirs(d + "/realtmp")
        os.symlink(d + "/realtmp", tmp)
    else:
        os.makedirs(tmp, exist_ok=True)
    result["TMPDIR"] = tmp
    odd = d + ("/o d'd" if plain else "/o d'd \u00e4\n")
    os.makedirs(odd)
    cwd = {"root": "/", "repository": realm, "git dir": realm + "/.git", "other repository": other, "odd": odd, "parent": os.path.dirname(realm),
           "temporary": tmp, "objects": realm + "/.git/objects", "same": d}[case_env["cwd"]]
    name = os.path.basename(realm)
    spelling = case_env["spelling"]
    real_cwd = os.path.realpath(cwd)
    relative = os.path.relpath(realm, real_cwd)
    if spelling == "symlink":
        os.symlink(realm, d + "/link")
    path = {"absolute": realm, "relative": relative, "slash": realm + "/", "double slash": d + "//" + name, "dot": d + "/./" + name + "/.",
            "up": d + "/other/../" + name, "symlink": d + "/link", "relative dot": "./" + relative}[spelling]
    return result, cwd, path


def ascii_only(case_env):
    return case_env["locale"] in ASCII


# --------------------------------------------------------------- the work

def work(realm, stored, ops, final, texts):
    result = edits.run_session(realm, stored, [*ops, ["flush"]], final, verify_end=True, flush=True)
    node = m.MTreeNode(m.Text)
    refs = []
    for n, text in enumerate(texts):
        refs.append(m.Text(text).write_out(realm).to_json_obj())
        node.add_child(ODD_NAMES[n].format(n), m.Text(text))
    if texts:
        ref = node.write_out(realm).to_json_obj()
        refs.append(ref)
        again = m.load("mtree", realm, ref)
        same([m.dump_text(again.get_child(ODD_NAMES[n].format(n))) for n in range(len(texts))], texts, "texts")
    return {"stored": result["stored"], "refs": refs}


def contents(realm):
    return sorted((o, read_object(realm, o)[0]) for o in all_objects(realm))


def run_case(case):
    stored, env = case["init"], case["env"]
    with CaseDir() as d:
        reference = mkrepo(d + "/reference")
        varied = mkrepo(d + "/" + ("r" if ascii_only(env) and not env["repo"].isascii() else env["repo"]))
        for repo in (reference, varied):
            store.Writer(repo).store(stored)
        expected = session(work, reference, stored, case["ops"], case["final"], case["texts"], what="reference environment")
        variables, cwd, path = environment(env, d, varied)
        others = {p: s for p, s in snapshot(d).items() if not p.startswith((os.path.basename(varied) + "/", "home/cache", "tmp", "t m p", "realtmp", "other/tmp", "t\u00e4mp"))}
        where = f"environment {[SETTINGS[n] for n in env['settings']]}, {[ATTRIBUTES[n] for n in env['attributes']]}, in {cwd}, path {path}"
        umask = -1 if env["umask"] is None else env["umask"]
        got = execmain.call(work, path, stored, case["ops"], case["final"], case["texts"], env=variables, cwd=cwd, umask=umask, what=where)
        same(m.norm("store", got["stored"]), m.norm("store", expected["stored"]), f"{where}: stored content")
        same(got["refs"], expected["refs"], f"{where}: returned references")
        same(all_refs(varied), all_refs(reference), f"{where}: git references")
        same(contents(varied), contents(reference), f"{where}: stored objects")
        loaded = execmain.call(m.dump_store, path, env=variables, cwd=cwd, umask=umask, what=where)
        same(m.norm("store", loaded), m.norm("store", expected["stored"]), f"{where}: content that is loaded")
        if case["remote"]:
            url = "ssh://vf.example/remote"
            n = int(variables.get("GIT_CONFIG_COUNT", "0"))
            extra = {**variables, "GIT_CONFIG_COUNT": str(n + 1), f"GIT_CONFIG_KEY_{n}": f"url.{varied}.insteadOf", f"GIT_CONFIG_VALUE_{n}": url}
            loaded = execmain.call(m.dump_store, url, env=extra, cwd=cwd, umask=umask, what=where)
            same(m.norm("store", loaded), m.norm("store", expected["stored"]), f"{where}: content that is loaded from a remote repository")
        after = {p: s for p, s in snapshot(d).items() if p in others or not p.startswith((os.path.basename(varied) + "/", "home/cache", "tmp", "t m p", "realtmp", "other/tmp", "t\u00e4mp"))}
        same(after, others, f"{where}: files outside of the repository")
    differs = sum([bool(env["settings"]), bool(env["attributes"]), env["locale"] is not None, bool(env["other"]), env["umask"] is not None,
                   env["seed"] is not None, env["cwd"] != "same", env["spelling"] != "absolute", env["tmp"] != "plain", env["repo"] != "r"])
    content = bool(stored["tvl"] or stored["uuid"] or case["ops"])
    return {"nontrivial": differs >= 3 and content,
            "tags": ["cwd " + env["cwd"], "path " + env["spelling"], "config " + env["place"]] + (["remote"] if case["remote"] else [])
            + (["locale"] if env["locale"] is not None else []) + (["git settings"] if env["settings"] else [])}
