#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json
P = []
MD, MA, KE, TM, UP, MR, FE, CF, ER = ("metadata/metadata.go", "metadata/marshal.go", "metadata/keys.go",
    "metadata/trustedmetadata/trustedmetadata.go", "metadata/updater/updater.go",
    "metadata/multirepo/multirepo.go", "metadata/fetcher/fetcher.go", "metadata/config/config.go", "metadata/errors.go")

def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Metadata is accepted only with a threshold of valid signatures",
  "A delegator (root for the top-level roles, targets metadata for the roles it delegates, by name or as succinct hash bins) accepts a piece of metadata for a role exactly when at least the role's threshold of distinct key IDs listed for that role each carry a valid signature over that metadata's signed content. Metadata read from bytes never delegates with a threshold below one, and a delegator that lists a key it does not contain may refuse. Signatures that are corrupt, made by another key, made over other content, repeated, or made by keys not listed for the role count for nothing. A role the delegator does not delegate is never accepted.",
  ["inputs", "configurations"], "every delegator kind, role key list, threshold and assignment of a signature state to every key, over ed25519, ECDSA and RSA keys",
  "The tests try a handful of key/threshold combinations; acceptance depends on the whole product of key lists, thresholds and per-key signature states.",
  [MD, TM], [("Metadata.VerifyDelegate", MD)], observe=["Metadata.VerifyDelegate", "TrustedMetadata.Update*"])

p("C02", "Root metadata changes only along a doubly signed version chain",
  "Starting from a trusted root that verifies against its own keys, a new root is accepted exactly when it is root metadata whose version is the trusted version plus one and it is signed by a threshold of both the trusted root's keys and its own keys. Skipped, repeated or older versions, and roots signed by only one of the two key sets, are refused and leave the trusted root as it was. Expired intermediate roots are accepted, and no root is accepted once a timestamp is loaded.",
  ["histories", "inputs"], "every sequence of offered roots over versions, key sets, thresholds, signer subsets and expiry, from every reachable trusted root",
  "Tests walk one or two rotations; the guarantee is about every chain of rotations and every mixture of old and new signatures.",
  [TM, UP], [("UpdateRoot", TM), ("loadTrustedRoot", TM), ("loadRoot", UP)], state=[("trusted.Root", "the currently trusted root", TM)], observe=["TrustedMetadata.UpdateRoot", "Updater.Refresh"])

p("C03", "Trusted metadata versions never roll back",
  "While the signing keys stay the same, a client never replaces trusted timestamp metadata by one with a lower version or by one that names a lower snapshot version, and never replaces trusted snapshot metadata by one that lists a lower version for, or no longer lists, any role the trusted one listed. This holds within a client's life and across restarts through the local cache, even when the cached metadata has expired or no longer matches. Metadata that does not go backwards is accepted.",
  ["histories", "inputs"], "every sequence of offers of older, equal and newer timestamp, snapshot and targets metadata, within a session and across sessions",
  "Tests check single rollback attempts from one prepared state, not every history of offers, restarts and partially failed updates.",
  [TM, UP], [("UpdateTimestamp", TM), ("UpdateSnapshot", TM), ("loadTimestamp/loadSnapshot", UP)], state=[("local metadata cache", "rollback reference across sessions", UP)], observe=["TrustedMetadata.Update*", "Updater.Refresh", "files in LocalMetadataDir"])

p("C04", "Expired metadata is never the final trusted state",
  "A refresh succeeds and targets metadata becomes available only when the final root, the timestamp, the snapshot and the targets metadata concerned are all unexpired at the client's reference time, where metadata counts as expired exactly when the reference time is after its expiry date. The reference time is fixed when the client is created. Expired timestamp or snapshot metadata may still serve as a rollback reference and expired intermediate roots may still be walked over.",
  ["inputs", "histories"], "every combination of expiry before, at and after the reference time for root, timestamp, snapshot, targets and delegated targets, at every step of the workflow",
  "Tests expire one role at a time, in one state, never at the boundary; the guarantee covers all combinations at every step.",
  [TM, MD, UP], [("IsExpired", MD), ("checkFinalTimestamp, checkFinalSnapshot", TM)], state=[("RefTime", "reference time", TM)], observe=["TrustedMetadata.Update*", "Updater.Refresh"])

p("C05", "Snapshot and targets are bound to the metadata that names them",
  "Snapshot metadata is final only if its version is the one the trusted timestamp names and, when newly downloaded, its bytes match every length and hash the timestamp declares for it. Targets metadata of any role is accepted only if the trusted snapshot lists that role and its version and bytes match what the snapshot lists. Metadata from different repository states can therefore never be mixed.",
  ["inputs", "histories"], "every combination of declared and actual version, length and hashes for snapshot, targets and delegated targets, in every load order",
  "Tests try one mismatch at a time; the guarantee is about every mix of versions, lengths and hash sets.",
  [TM, MD], [("UpdateSnapshot/UpdateDelegatedTargets", TM), ("MetaFiles.VerifyLengthHashes", MD)], observe=["TrustedMetadata.UpdateSnapshot", "TrustedMetadata.UpdateDelegatedTargets"])

p("C06", "Metadata loads in order and a refused load changes nothing",
  "Whatever is offered in whatever order, root, timestamp, snapshot, top-level targets and delegated targets can only be loaded in that order, each from metadata of its own type, and root can no longer be changed once a timestamp is loaded, the timestamp once a snapshot is, and the snapshot once top-level targets are. A refused load leaves every trusted role exactly as it was, except that a correctly signed timestamp or snapshot that is not final is kept as the rollback reference.",
  ["histories", "inputs"], "every sequence of load operations up to the depth, with every kind of document given to every operation",
  "TestOutOfOrderOps tries a few fixed orders; the guarantee is about every order and every document type in every slot.",
  [TM], [("guards at the head of every Update method", TM), ("checkType", MD)], observe=["TrustedMetadata fields after every operation"])

p("C07", "Refreshing follows the TUF client workflow across sessions",
  "For any repository content offered in any series of client sessions sharing a local cache, a refresh succeeds exactly when the TUF client workflow accepts that content, the trusted metadata afterwards is what the workflow selects, and each cached metadata file is the last one that was verified and accepted. In particular a client recovers from fast-forwarded versions once the repository rotates the affected keys, reuses valid cached metadata, and a failed refresh leaves the cache able to continue.",
  ["histories", "inputs", "fault_sequences"], "every series of sessions over a small universe of repository states, with every download answer replaced by older, mis-signed, malformed or missing content up to a deviation bound",
  "Tests play about forty fixed scripts; the workflow's guarantees are about every series of sessions and every mixture of honest and hostile answers.",
  [UP, TM], [("onlineRefresh, loadRoot, loadTimestamp, loadSnapshot, loadTargets", UP), ("persistMetadata", UP)], state=[("LocalMetadataDir", "cache shared by sessions", UP)], observe=["Updater.Refresh", "Updater.GetTrustedMetadataSet", "files in LocalMetadataDir"])

p("C08", "A crash or I/O error never leaves a damaged metadata cache",
  "If the client process stops at any point, or any file operation fails, each metadata file in the local cache is at that moment either the complete previous version or the complete new, verified version, never missing where it existed, empty or partial. A failed file operation while storing metadata is reported and leaves no temporary file behind, and the next session works from that cache.",
  ["crash_points", "fault_sequences"], "every crash point and every torn write between two file-system operations of a session, and every single failing file operation",
  "No test interrupts the client or fails a file operation.",
  [UP], [("persistMetadata: write to a temporary file, then rename", UP)], state=[("LocalMetadataDir", "metadata cache", UP)], observe=["files in LocalMetadataDir after a crash", "Updater.Refresh of the next session"],
  hook="file-system calls are intercepted by building the checks with a patched copy of the standard library; nothing in /repo is changed")

p("C09", "A damaged local cache can neither block nor fool a client",
  "Whatever the cached timestamp, snapshot, targets and delegated metadata files contain (missing, empty, cut short, not JSON, another role's metadata, metadata signed by other keys, expired or outdated metadata), a refresh against an honest repository succeeds and ends with the repository's metadata and a repaired cache. Cached bytes are never trusted without the same verification as downloaded ones, and a cached file is used instead of a download only if its version and, for targets roles, every declared length and hash are what the trusted metadata calls for.",
  ["inputs", "histories"], "every combination of damaged contents of the cached files",
  "Tests only ever start from a cache that the client itself wrote a moment earlier.",
  [UP, TM], [("handling of local load errors in loadTimestamp, loadSnapshot, loadTargets", UP)], observe=["Updater.Refresh", "files in LocalMetadataDir"])

p("C10", "Target lookup follows delegation order, priority and termination",
  "Looking up a target returns the entry of the first role that lists it in a pre-order depth-first walk of the delegations that match the target path, in their order of appearance; after a matching terminating delegation no later delegation is consulted. Every role is visited at most once, at most the configured number of delegations is visited, cycles are harmless, and an unreadable or unverifiable role on the way makes the lookup fail rather than fall through. The answer is the same every time.",
  ["inputs", "configurations"], "every delegation graph up to a number of roles and edges, with every terminating/matching flag, every placement of the target, every visit limit, and every hash-map iteration order",
  "The tests look up one missing target over three sibling roles and one of them is flaky for exactly this reason; order and termination depend on the whole graph.",
  [UP, MD], [("preOrderDepthFirstWalk", UP), ("Delegations.GetRolesForTarget", MD)], observe=["Updater.GetTargetInfo", "the sequence of role downloads"])

p("C11", "A delegated role is trusted only for the paths delegated to it",
  "A role delegated by path patterns is responsible for exactly the target paths for which some pattern has the same number of '/'-separated parts and each part matches shell-style, where '*' and '?' never match across a '/'. A role delegated by path hash prefixes is responsible for exactly the paths whose SHA-256 digest starts with one of the prefixes. A role with neither is responsible for nothing, and a role that carries both is judged by its patterns alone.",
  ["inputs"], "every pattern and every path over a small alphabet up to a length, and every prefix of every digest considered",
  "TestIsDelegatedPath has eleven pairs; a matcher is wrong on pairs nobody wrote down.",
  [MD], [("DelegatedRole.IsDelegatedPath, isTargetInPathPattern", MD)], observe=["DelegatedRole.IsDelegatedPath", "Delegations.GetRolesForTarget"])

p("C12", "Succinct hash bins partition the target paths",
  "For every bit length from 1 to 32, every target path belongs to exactly one bin, namely the one numbered by the leftmost bits of the SHA-256 digest of the path, and its name is the prefix, a dash and the bin number in lower-case hexadecimal, zero-padded to the width of the last bin's number. The list of bin names contains each of the 2^bits names once in order, and a name is recognised as delegated exactly when it is in that list.",
  ["inputs", "configurations"], "every bit length, a set of paths that hits every bin for the small ones, and every candidate role name over a small alphabet",
  "Tests use one bit length and a few names.",
  [MD], [("SuccinctRoles.GetRolesForTarget, GetRoles, GetSuffixLen, IsDelegatedRole", MD)], observe=["SuccinctRoles methods", "Updater.GetTargetInfo"])

p("C13", "Target files are delivered only if they match the trusted metadata",
  "Downloading a target succeeds, and writes or returns bytes, only if those bytes have exactly the length and match every hash given in the trusted target information, which must give at least one; when the download or its verification fails, an existing file at the destination is left as it was. A locally cached target is reported only under the same condition, and is otherwise treated as absent. The file is requested under the given base URL at the target's path, with a hash of the target prefixed to the file name exactly when the trusted root uses consistent snapshots and hash prefixes are enabled.",
  ["inputs", "fault_sequences", "configurations"], "every combination of served bytes, declared length, hash set, cached file content, target path shape, URL and snapshot configuration, and fetch error",
  "Tests never download a target that fails verification and never look at the requested URL of a target in a directory.",
  [UP, MD], [("DownloadTarget, FindCachedTarget", UP), ("TargetFiles.VerifyLengthHashes", MD)], observe=["Updater.DownloadTarget", "Updater.FindCachedTarget", "requested URLs", "files in LocalTargetsDir"])

p("C14", "The client writes only inside its own directories, one file per name",
  "Whatever role names and target paths the repository chooses, the client creates, changes and reads files only inside its configured metadata and target directories (or at the destination the caller gives), whatever the process's working directory and whatever characters the directory names contain. Different role names and different target paths never share a file, a delegated role can never take the place of a top-level role's file, and metadata stored under a role name is found again under it.",
  ["inputs", "configurations"], "every role name and target path from an alphabet of hostile names and path fragments, in every directory configuration",
  "Tests use tame names, and one working directory.",
  [UP, TM], [("persistMetadata, loadLocalMetadata, generateTargetFilePath", UP)], observe=["every file-system call of a session", "directory contents"],
  hook="file-system calls are observed by building the checks with a patched copy of the standard library; nothing in /repo is changed")

p("C15", "Downloads are bounded in size and only complete successes count",
  "The default fetcher returns data exactly when the server answers 200 with a complete body of at most the allowed length; it returns the body unchanged. Bodies that are longer than allowed, whether announced, unannounced or chunked, are refused without reading more than one byte beyond the limit, and a body shorter than announced, any other status (reported with its code) and a server that stalls past the timeout are errors.",
  ["inputs", "fault_sequences"], "every combination of status, framing, announced length, actual length, limit and stall point",
  "The one test needs the internet and covers a success and an oversized file.",
  [FE], [("DefaultFetcher.DownloadFile", FE)], observe=["Fetcher.DownloadFile against a scripted server"])

p("C16", "Multi-repository lookups need the consensus the map file asks for",
  "A multi-repository lookup goes through the mappings in order, and a mapping whose pattern matches yields a target exactly when one and only one version of it (same length and hashes) is vouched for by at least the threshold of distinct listed repositories, and then yields that version and exactly those repositories. Two such versions are an error; a terminating mapping that matches ends the search; otherwise later mappings are tried, and without a result the lookup fails.",
  ["inputs", "configurations"], "every map of up to two or three mappings over three repositories with every threshold, order, duplicate, pattern and terminating flag, against every assignment of answers to repositories",
  "The package has no tests at all.",
  [MR], [("MultiRepoClient.GetTargetInfo", MR)], observe=["MultiRepoClient.GetTargetInfo"])

p("C17", "Reading and writing metadata preserves it exactly",
  "Any well-formed metadata document that is read and written again, through bytes or files, compact or indented, is the same JSON value as before, including unknown fields at every level and of every kind and all optional fields present or absent, and reading the result yields the same object again. Its signatures stay valid and its canonical signed bytes stay the same.",
  ["inputs"], "every document shape from a grammar of optional fields, unknown fields of every JSON kind at every level, and both delegation forms",
  "Round-trip tests cover the sample files and one unknown field in the signed part.",
  [MA, MD], [("MarshalJSON/UnmarshalJSON pairs", MA), ("FromBytes, ToBytes, FromFile, ToFile", MD)], observe=["Metadata.FromBytes/ToBytes/FromFile/ToFile"])

p("C18", "No metadata content can crash the client",
  "Whatever bytes the repository or the local cache supplies as metadata, even when correctly signed, every loading, verifying and updating operation returns a result or an error and never panics or hangs. Metadata of the wrong type and metadata with two signatures under one key ID is always refused.",
  ["inputs", "fault_sequences"], "every single structural mutation, and pairs of mutations, of every node of a valid document of every role (deleted, or replaced by every kind of JSON value), re-signed or not, plus truncations, through every loading operation",
  "Tests feed a few malformed documents; a crash needs one unlucky field nobody thought of.",
  [MD, MA, TM, UP, KE], [("checkType, fromBytes, checkUniqueSignatures", MD), ("UnmarshalJSON methods", MA)], observe=["FromBytes, VerifyDelegate, TrustedMetadata.Update*, Updater.Refresh, Updater.GetTargetInfo"])

p("C19", "Key management keeps roles and key store consistent",
  "After any sequence of adding and revoking keys on root or delegating targets metadata, each role lists exactly the keys added and not revoked since, each once and in order of addition, and the key store holds exactly the keys that some role lists. Adding a key twice changes nothing; adding to or revoking from an unknown role, and revoking a key the role does not list, fail and change nothing.",
  ["histories"], "every sequence of add and revoke operations up to the depth over several keys and roles, for root, named delegations and succinct delegations",
  "Tests run one fixed sequence per type.",
  [MD], [("RootType.AddKey/RevokeKey, TargetsType.AddKey/RevokeKey", MD)], observe=["Signed.Roles, Signed.Keys, Signed.Delegations after every operation"])

p("C20", "Length and hash checks accept exactly the described bytes",
  "Checking data against target file information succeeds exactly when the length equals and every given hash is of a known algorithm and equals the data's digest; for metadata files the same, except that an absent length and absent hashes are not checked. Target information generated from data or a file accepts that data and rejects any other, and comparing two target informations says equal exactly when lengths agree, at least one algorithm is common, and all common hashes agree.",
  ["inputs"], "every combination of data, declared length, and correct, wrong, cut, empty, unknown or absent hash entries, in every map order",
  "Tests flip one field at a time.",
  [MD], [("VerifyLengthHashes, verifyHashes, verifyLength, TargetFiles.FromBytes/FromFile, Equal", MD)], observe=["MetaFiles.VerifyLengthHashes", "TargetFiles methods"])

p("C21", "Key identifiers and key conversion are faithful",
  "A key's identifier is the SHA-256 of the canonical form of its public content, so that it does not depend on how or when the key object was made, two keys have the same identifier exactly when their content is the same, and it is the identifier under which signatures are recorded. Converting a public key to metadata form, writing, reading and converting back gives the same public key for every supported key type, and malformed or mismatched key material is refused with an error.",
  ["inputs"], "every supported key type and every single-field variation of key content, through every conversion path",
  "Tests compute identifiers of a few sample keys.",
  [KE, MA], [("Key.ID, KeyFromPublicKey, ToPublicKey", KE)], observe=["Key.ID", "KeyFromPublicKey", "Key.ToPublicKey", "Metadata.Sign"])

p("C22", "A refresh makes only the right, bounded requests",
  "A client downloads at most the configured number of new roots, one at a time by consecutive version, stopping only when the server reports the next one missing (404 or 403) while any other failure fails the refresh; then the timestamp once without version, and the snapshot and each targets role at most once, with the version named by trusted metadata exactly when consistent snapshots are on. Every request's size limit is the length the trusted metadata declares, or else the configured maximum for that role. No behaviour of the server makes a refresh or lookup request more than that.",
  ["fault_sequences", "configurations"], "every assignment of answers and errors to the requests of a session, under several limits and both snapshot modes",
  "Tests check one oversized file per role and one rotation limit.",
  [UP, CF], [("loadRoot bounds, downloadMetadata, lengths in loadSnapshot/loadTargets", UP)], observe=["the (URL, limit) sequence seen by the Fetcher"])

p("C23", "Unsafe local mode never goes online and still verifies",
  "In unsafe local mode a refresh makes no network request and succeeds exactly when the cached timestamp, snapshot and targets files are present, signed, unexpired, and mutually consistent under the provided root; it then yields exactly their content. Otherwise it fails. Looking up a target in delegated roles uses only cached metadata too.",
  ["inputs", "configurations"], "every combination of cached file states",
  "Two tests cover the complete and the empty cache.",
  [UP], [("unsafeLocalRefresh", UP)], observe=["Updater.Refresh", "calls of the Fetcher"])

p("C24", "Concurrent clients do not disturb each other",
  "Clients running at the same time, whether they share a local metadata directory or a process, never see each other's half-written files, each ends as it would have ended on some sequential order of the same sessions, and the shared cache afterwards holds complete verified metadata that a later session can use. Clients for different repositories with separate directories behave exactly as if each were alone.",
  ["schedules"], "every interleaving, at file-system and download steps (with separate directories: at every statement), of two concurrent sessions up to a preemption bound",
  "No test runs two clients at once.",
  [UP], [("unique temporary file and rename in persistMetadata; no shared mutable state between Updaters", UP)], observe=["results of both sessions", "files in LocalMetadataDir"],
  hook="file-system calls are scheduling points through a patched copy of the standard library; nothing in /repo is changed")

p("C25", "The tuf-client tool delivers only verified targets",
  "Against any repository behaviour and any sequence of init, get and reset commands, init succeeds only with a root that verifies, which is then the trust anchor of later commands wherever it came from; get writes only target files that match the verified metadata and otherwise fails; and reset removes nothing but the tool's own two directories. A failed init leaves no trust anchor behind.",
  ["histories", "inputs"], "every sequence of commands up to the depth against every repository state of a small set",
  "The example tools have no tests.",
  ["examples/cli/tuf-client/cmd/init.go", "examples/cli/tuf-client/cmd/get.go", "examples/cli/tuf-client/cmd/reset.go"], [("InitializeCmd, GetCmd, ResetCmd", "examples/cli/tuf-client/cmd")], observe=["exit status and files of the built tuf-client binary"])

p("C26", "With caching disabled nothing is stored",
  "With the local cache disabled, creating a client, refreshing, looking up and downloading targets creates, changes and removes no file or directory, never reports a cached target, and reaches the same results as a client with the cache enabled that starts from the same directory contents.",
  ["configurations", "histories"], "every repository answer pattern of a small set, for every operation of a session",
  "No test enables the option.",
  [UP, CF, MR], [("DisableLocalCache checks in persistMetadata, DownloadTarget, FindCachedTarget, EnsurePathsExist", UP)], observe=["every mutating file-system call of a session", "session results"],
  hook="file-system calls are observed by building the checks with a patched copy of the standard library; nothing in /repo is changed")

p("C27", "A signature covers every field of the signed content",
  "Metadata signed through the API verifies for its signer with every supported key type, after any number of saves and loads. Changing, adding or removing any field at any depth of the signed content, known or unknown, makes every earlier signature invalid (a known field with its empty value counts as left out), and changing anything outside the signed content does not.",
  ["inputs"], "every node of a full document of every role, with every small change, for every key type",
  "Tests verify an intact document and one tampered field.",
  [MD, MA], [("Metadata.Sign, Metadata.VerifyDelegate", MD), ("MarshalJSON methods", MA)], observe=["Metadata.Sign", "Metadata.VerifyDelegate"])

p("C28", "What a publisher makes with this library, a client accepts",
  "A repository built and evolved only with the library's own operations (creating metadata, adding and revoking keys, adding and removing targets and delegations, bumping versions, signing, writing files), following the published order, is accepted at every stage by a client that has followed any subset of the earlier stages. The client then sees exactly the targets the publisher put in.",
  ["histories"], "every sequence of publisher steps up to the depth, with a client refreshing after every subset of them",
  "Tests drive the client from a simulator with a single kind of edit each.",
  [MD, KE, UP, TM], [("publisher API", MD), ("client workflow", UP)], observe=["Updater.Refresh, GetTargetInfo, GetTopLevelTargets, DownloadTarget"])

p("C29", "Multi-repository clients keep repositories apart and fall back",
  "A multi-repository client keeps each repository's metadata in its own directory inside the configured one, gets it from the first location the map file gives for it, verifies each repository only against its own root, and refuses repository names or map files that would break this. Downloading a target tries the given repositories in order, returns the first copy that matches the agreed information, and fails only when none delivers one. The combined list of top-level targets contains exactly the targets that the lookup itself accepts.",
  ["inputs", "configurations", "fault_sequences"], "every small map file with every repository name of a hostile set, and every assignment of delivery outcomes to repositories",
  "The package has no tests at all.",
  [MR], [("NewConfig, initTUFClients, DownloadTarget, GetTopLevelTargets", MR)], observe=["multirepo.New", "MultiRepoClient methods", "directory contents"])

p("C30", "Errors identify the class of failure",
  "Every error by which the trusted metadata set refuses repository-supplied metadata for missing signatures, versions, expiry, length or hash, or inconsistency is recognisable as a repository error and as its specific kind, an equal version is recognisable as such and as a bad version, and download errors are recognisable as download errors with their status, also when wrapped. Calls out of order are recognisable as neither.",
  ["inputs"], "every kind of refusal in every reachable state, against every error class",
  "Tests compare errors with literal values carrying the same message.",
  [ER, TM], [("Is methods", ER)], observe=["errors.Is / errors.As on returned errors"])

p("C31", "Documents in memory are separate and the repository store keeps what it is given",
  "Every metadata document a program holds contains exactly what was put into that document: creating, changing, signing, clearing, verifying, encoding or reading another document, and reusing the buffers it was read from or encoded into, never change it. A freshly created document has version 1, the library's specification version, the given expiry (the time of creation without one), no signatures and only the empty roles or the version 1 entry of its kind. Reading a document in place replaces all of it, and a read that fails leaves it as it was. A repository store returns the very document last stored under each role, nothing for a role never stored, and shares nothing with other stores.",
  ["histories"], "every sequence of operations up to the depth over two documents of every role, and over two repository stores with shared documents",
  "Tests make one document at a time and look only at the one they changed.",
  [MD, MA, "metadata/repository/repository.go"], [("Root, Timestamp, Snapshot, Targets, MetaFile, TargetFile constructors, FromBytes, FromFile, Sign, ClearSignatures", MD), ("New, Set*, getters", "metadata/repository/repository.go")], observe=["ToBytes of every document after every operation", "getters of the repository store"])

if __name__ == "__main__":
    for x in P:
        print(json.dumps(x, ensure_ascii=False))
