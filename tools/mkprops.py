"""Writes /verif/properties.jsonl (kept as source so that the statements stay reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)
S = "src/auditwheel/"
prop("C01", "Symbol-version verdict is sound and maximal",
 """For any mapping from libraries to the symbol versions a wheel requires, the policy named by the symbol-version analysis
 permits every required version in every symbol namespace that policy constrains (a namespace is the text before the first
 underscore of a version string), and no policy of higher priority in the catalogue permits them all. Requirements in
 namespaces a policy says nothing about never disqualify it, so the generic linux policy always qualifies.""",
 ["inputs","configurations"], "All sets of required symbol versions, all policy catalogues (architecture, libc).",
 "The tests sample a handful of symbol sets against one policy file; the claim is over every subset of versions and every policy.",
 [S+"policy/__init__.py"], [("versioned_symbols_policy", S+"policy/__init__.py"), ("Policy.__lt__", S+"policy/__init__.py")],
 ["WheelPolicies.versioned_symbols_policy result", "auditwheel show sym tag"])
prop("C02", "External-library classification per policy is exact",
 """For every policy other than generic linux, the libraries reported as external to an ELF file are exactly those reachable from
 its direct dependencies through libraries the policy does not allow-list (the dynamic loader, and libpython on Android, never
 count), less the ones that resolve to a file inside the unpacked wheel; each is reported with the path it resolved to, or as
 unlocated. For the generic linux policy nothing is ever external.""",
 ["inputs","configurations"], "All dependency graphs (cyclic ones included), allow-lists, wheel locations and C libraries.",
 "Unit tests use one or two tiny dependency lists; reachability over arbitrary graphs needs an inductive argument.",
 [S+"policy/__init__.py", S+"tools.py"], [("lddtree_external_references", S+"policy/__init__.py"), ("is_subdir", S+"tools.py")],
 ["lddtree_external_references result", "auditwheel show external libs"])
prop("C03", "Deny-listed symbol use is detected exactly",
 """For each policy, the deny-listed symbols reported for an ELF file are, per denied library that is among its direct
 dependencies, exactly the names on that policy's deny list that occur among the file's undefined non-weak dynamic symbols
 (a '*' entry always counts), sorted, with libraries without a hit left out. When several files of a wheel are combined the
 per-library report is the union, and the deny-list verdict is the highest-priority policy with an empty report, else generic linux.""",
 ["inputs"], "All symbol tables, deny lists, dependency lists and combinations of files in a wheel.",
 "One bundled wheel exercises the deny list; weak/defined/undefined combinations, unions over files and wildcard entries are unsampled.",
 [S+"elfutils.py", S+"policy/__init__.py", S+"wheel_abi.py"],
 [("get_undefined_symbols/filter_undefined_symbols", S+"elfutils.py"), ("lddtree_external_references", S+"policy/__init__.py"), ("update", S+"wheel_abi.py"), ("analyze_wheel_abi", S+"wheel_abi.py")],
 ["ExternalReference.blacklist", "blacklist policy"])
prop("C04", "Overall platform verdict is the minimum of the individual verdicts",
 """The overall policy of an analysed wheel is the lowest-priority one among its symbol-version, UCS2, PyFPE, deny-list and
 instruction-set verdicts, further lowered to the graft verdict when a target platform (or auto) was requested and to the
 external-reference verdict when grafting is not allowed, and lowered by nothing else. A wheel with UCS2 or PyFPE use gets generic
 linux for that verdict and otherwise the highest policy; the external-reference verdict is the highest policy needing no external
 library, and the graft verdict the highest policy needing no more external libraries than the requested one (for auto or none: than the best non-linux policy).""",
 ["inputs","configurations"], "All combinations of evidence, policies and request options.",
 "The tests check a few bundled wheels, where most verdicts coincide, so which verdicts enter the minimum is rarely observable.",
 [S+"wheel_abi.py"], [("analyze_wheel_abi", S+"wheel_abi.py"), ("Policy ordering", S+"policy/__init__.py")],
 ["WheelAbIInfo.*_policy", "auditwheel show tag"])
prop("C05", "Grafted libraries' symbol versions count against the policy that grafts them",
 """When judging a policy other than generic linux, the symbol versions considered are those of the wheel's own ELF files together
 with those of every located library that would have to be grafted under that policy, and of no other library; judging one policy
 never changes what is considered for another, nor the evidence itself. The verdict for that policy never outranks the policy
 itself, and the wheel's symbol verdict is the highest of the per-policy verdicts.""",
 ["inputs","histories"], "All external-library sets per policy, symbol tables, and orders in which policies are judged.",
 "Leaks between policies only show for particular combinations of external sets; the one unit test has a single library.",
 [S+"wheel_abi.py"], [("get_symbol_policies", S+"wheel_abi.py"), ("get_external_libs", S+"wheel_abi.py"), ("get_versioned_symbols", S+"wheel_abi.py")],
 ["get_symbol_policies result", "symbol policy"])
prop("C06", "Instruction-set extension verdict is sound",
 """If any analysed ELF file, or any located external library it uses, requires an instruction-set level above the
 one the target architecture guarantees, the instruction-set verdict is no higher than generic linux, except that a library
 some policies allow-list limits the verdict only to the highest-priority policy allow-listing it. If nothing exceeds the
 target level the verdict is the highest policy, and disabling the check always yields the highest policy.""",
 ["inputs"], "All sets of ELF files with dependencies, ISA levels, allow-lists, and iteration orders.",
 "Unit tests cover a few hand-made trees; order dependence and interaction of several offending files are unsampled.",
 [S+"wheel_abi.py", S+"architecture.py"], [("_get_machine_policy", S+"wheel_abi.py"), ("Architecture.is_superset", S+"architecture.py")],
 ["machine policy"])
prop("C07", "Repair refuses tags the analysis rules out",
 """Repair never rewrites a wheel for a requested platform that outranks the wheel's symbol-version, UCS2, PyFPE, deny-list or
 instruction-set verdict: it stops with an error before touching the output. When it proceeds, the tags written are the requested
 policy's name and aliases, preceded by the overall verdict's name and aliases exactly when that verdict ranks higher and only-plat
 was not asked for; auto requests the overall verdict, or the lowest non-linux policy when the verdict is generic linux.""",
 ["inputs","configurations"], "All combinations of verdicts, requested platforms and options.",
 "Only one refusal reason is exercised through the command line; the others and their combinations with options are not.",
 [S+"main_repair.py"], [("execute", S+"main_repair.py")], ["repair exit status", "tags handed to the wheel writer"])
prop("C08", "Repair grafts and relinks every external library",
 """After a successful repair, for every ELF file of the wheel each external library under the chosen policy has either been grafted
 into the wheel with the file's dependency renamed to the grafted name, or (libpython) the dependency removed; a library that could not be
 located aborts the repair. Grafted libraries have their own dependencies on other grafted libraries renamed likewise, get an RPATH of
 their own directory when they have any such dependency and no RPATH otherwise, and every file with external libraries gets the graft
 directory, relative to itself, on its RPATH.""",
 ["inputs"], "All external-reference maps: shared, transitive, missing and libpython dependencies across several files.",
 "The only repair tests that patch binaries need Docker images; the remaining ones use the no-op patcher or a single library.",
 [S+"repair.py", S+"patcher.py"], [("repair_wheel", S+"repair.py"), ("_replace_elf_script_with_shim", S+"repair.py")],
 ["patch requests per file", "DT_NEEDED/RPATH of files in the output wheel"])
prop("C09", "Grafted library copies are content-addressed and faithful",
 """A grafted library is a byte-for-byte copy placed in the wheel's library directory, writable by its owner, under its original file
 name with '-' and the first eight hex digits of the SHA-256 of its content inserted before the first dot (a name already carrying that
 suffix is kept), and its SONAME is set to that name. Grafting the same library again reuses the existing copy without copying or patching it again.""",
 ["inputs","histories"], "All library file names and contents, repeated grafts, read-only sources.",
 "No stable test calls the grafting routine with real files apart from one Android library.",
 [S+"repair.py", S+"hashfile.py"], [("copylib", S+"repair.py"), ("hashfile", S+"hashfile.py")], ["files in the library directory", "SONAME patch requests"])
prop("C10", "RPATH rewriting keeps exactly the in-wheel entries",
 """When an RPATH entry is added to a file, the resulting RPATH is the previous entries, in order and without duplicates, that expand
 (ORIGIN, LIB and PLATFORM tokens, with or without braces) to an absolute location inside the wheel, followed by the new entry unless it is already there. Entries
 that are relative, empty or lead outside the wheel are always dropped.""",
 ["inputs"], "All RPATH strings, wheel locations and file locations.",
 "Four unit tests use single-entry RPATHs; order, duplicates and sibling-directory prefixes are not sampled.",
 [S+"repair.py", S+"tools.py"], [("append_rpath_within_wheel", S+"repair.py"), ("_is_valid_rpath", S+"repair.py"), ("unique_by_index", S+"tools.py"), ("is_subdir", S+"tools.py")],
 ["RPATH set on the file"])
prop("C11", "Queued ELF patches are applied once, completely and consistently",
 """Every patch requested for a file (new SONAME, dependencies to remove, dependencies to rename, RPATH set or cleared) is
 passed to the patch tool in a single invocation for that file, in request order within each kind, with nothing else and nothing
 twice, and nothing stays queued afterwards; a set RPATH wins over a cleared one and a queried RPATH reflects the pending request.
 Removing and renaming the same dependency of one file is rejected, requests follow a file that is moved, and RPATH requests for Android below API level 24 are rejected.""",
 ["inputs","histories"], "All sequences of patch requests over any number of files.",
 "Unit tests replay short fixed sequences; ordering, aliasing of paths and multi-file queues are unbounded.",
 [S+"patcher.py"], [("ElfPatcher", S+"patcher.py"), ("_Patchelf.apply_updates", S+"patcher.py")], ["patch tool invocations"])
prop("C12", "Retagging updates file name and metadata tags consistently",
 """After adding and removing platforms, the wheel file name's platform tags are exactly the previous ones minus the removed ones plus the
 added ones, sorted and without duplicates, with 'any' dropped as soon as another platform is present; the rest of the name and its directory are unchanged.
 The WHEEL metadata keeps every tag whose platform is not removed, for its Python and ABI combination, and gains each added
 platform for every such combination exactly once; Root-Is-Purelib becomes false exactly when 'any' was dropped and the tags changed. Other metadata is untouched.""",
 ["inputs"], "All file names, WHEEL tag lists and added/removed platform lists.",
 "A couple of unit tests cover one tag each; compressed tag sets, several Python/ABI pairs and removal overlaps are unsampled.",
 [S+"wheeltools.py", S+"policy/__init__.py"], [("add_platforms", S+"wheeltools.py"), ("get_wheel_platforms", S+"wheeltools.py"), ("get_replace_platforms", S+"policy/__init__.py")],
 ["output file name", "WHEEL metadata"])
prop("C13", "RECORD lists every file with its true digest and size",
 """The RECORD written into an output wheel has exactly one entry for every file of the wheel, itself included, in a deterministic order, with
 the dist-info directory's entries last and RECORD after that directory's other own files; each entry carries the URL-safe unpadded base64 SHA-256 and the byte size of the file's content, except RECORD's own
 entry, which is blank. Any RECORD signature is removed, and a tree without exactly one dist-info directory is rejected.""",
 ["inputs"], "All directory trees, file names and contents.",
 "Tests never compare RECORD with the actual content of a repaired wheel over varied trees.",
 [S+"wheeltools.py", S+"tools.py"], [("rewrite_record", S+"wheeltools.py"), ("walk", S+"tools.py")], ["RECORD in the output wheel"])
prop("C14", "Wheel packing is lossless and reproducible",
 """Unpacking a wheel and packing it again preserves the set of files, their contents and the permission bits of files (owner read/write is always
 granted), adds every directory, keeps the top-level dist-info directory last and RECORD the last of its files, and otherwise orders entries by sorted names. All
 entries carry the same timestamp (the given one, never before 1980), so packing the same tree twice with the same timestamp gives identical archives.""",
 ["inputs"], "All directory trees, permissions, timestamps and compression levels.",
 "Tests pack one or two fixed trees; ordering and permission handling over arbitrary trees are not enumerated.",
 [S+"tools.py"], [("zip2dir", S+"tools.py"), ("dir2zip", S+"tools.py"), ("walk", S+"tools.py")], ["archive bytes", "archive entries"])
prop("C15", "Policy catalogue is well-formed and selection is exact",
 """For every C library and architecture the catalogue consists of generic linux at the bottom plus exactly the policies of the policy file that support that
 architecture, in strictly increasing priority, each with that architecture's symbol versions, allow-list and deny-list; with musl only the detected, requested or
 newest musl policy remains, and on Android only the newest one not above the wheel's API level, renamed to the wheel's tag. Names and aliases identify at most one policy each, and a policy
 file in which a more compatible policy allows a library or symbol version that a less compatible one lacks is rejected.""",
 ["inputs","configurations"], "All architectures, C libraries, musl versions, Android API levels and policy files.",
 "Tests instantiate a few combinations and two malformed policy files.",
 [S+"policy/__init__.py"], [("WheelPolicies.__init__", S+"policy/__init__.py"), ("_validate_pep600_compliance", S+"policy/__init__.py"), ("get_policy_by_name", S+"policy/__init__.py"), ("_fixup_musl_libc_soname", S+"policy/__init__.py")],
 ["iteration over the catalogue", "policy lookup by name"])
prop("C16", "Architecture and C library inference is unambiguous",
 """Architecture compatibility is a partial order in which x86_64 < v2 < v3 < v4 and different baselines are never comparable. The architecture
 inferred from a wheel file name is returned only when every platform tag names an architecture with one and the same baseline, and is that baseline; otherwise an error
 is raised, which for a name with only the 'any' tag says the wheel is not a platform wheel. The C library inferred is returned only when the tags name exactly one.""",
 ["inputs"], "All architecture pairs and triples, all wheel file names and tag sets.",
 "Tests list a few names; mixtures of several tags are sampled sparsely.",
 [S+"architecture.py", S+"wheeltools.py", S+"libc.py"], [("is_subset/is_superset/baseline", S+"architecture.py"), ("get_wheel_architecture", S+"wheeltools.py"), ("get_wheel_libc", S+"wheeltools.py")],
 ["get_wheel_architecture / get_wheel_libc results"])
prop("C17", "Library lookup honours search order, compatibility and exclusions",
 """A dependency resolves to the first directory of the search list holding a file of that name that is ELF-compatible with the
 requesting file (class, byte order, machine, OS ABI), or is reported unlocated. The search list is the analysed file's
 RPATH, the requesting file's own RPATH and RUNPATH, the environment, the analysed file's RUNPATH, the configured and the interpreter directories, in that order, with RPATH ignored when
 RUNPATH names an existing directory; search lists are expanded, normalised, free of duplicates and of missing directories. Dependencies matching
 an exclusion pattern by name or resolved path never appear among a file's dependencies or libraries, libpython is listed but never resolved, and every other dependency, direct or transitive, is listed once.""",
 ["inputs","configurations"], "All library trees on disk, search paths, exclusion patterns and dependency graphs.",
 "Unit tests cover parsing of a few path strings and one resolution.",
 [S+"lddtree.py"], [("find_lib", S+"lddtree.py"), ("ldd", S+"lddtree.py"), ("parse_ld_paths", S+"lddtree.py"), ("Platform.is_compatible", S+"lddtree.py")],
 ["ldd result", "auditwheel lddtree output"])
prop("C18", "Working directory is restored and failed repairs leave no output",
 """Whatever happens while a wheel is being worked on, success or any error, the process's working directory afterwards is what it was before and the
 scratch directory is gone. An output wheel is written only if the work completed without an error, and the input wheel is never modified by a failing repair.""",
 ["inputs","fault_sequences"], "All points at which an operation inside the working context can fail.",
 "The tests only leave the contexts normally.",
 [S+"tmpdirs.py", S+"wheeltools.py", S+"repair.py"], [("InTemporaryDirectory", S+"tmpdirs.py"), ("InWheel.__exit__", S+"wheeltools.py")],
 ["current directory", "output directory contents", "input wheel bytes"])
prop("C19", "ELF evidence is extracted exactly",
 """From an ELF file's dynamic symbol and version tables auditwheel collects exactly: the (library, version) pairs of its version requirements
 except those on the dynamic loader; the undefined function symbols whose name contains PyUnicodeUCS2_; whether a PyFPE helper symbol is undefined as function or
 untyped; the undefined non-weak symbols; and whether it is a Python extension, i.e. defines as a function the init symbol of its own module name, with the right Python major version. Files named *.py and non-ELF files are skipped.""",
 ["inputs"], "All symbol tables, version tables and file names.",
 "Tests use mocks with one or two symbols each.",
 [S+"elfutils.py"], [("elf_find_versioned_symbols", S+"elfutils.py"), ("elf_find_ucs2_symbols", S+"elfutils.py"), ("elf_references_pyfpe_jbuf", S+"elfutils.py"), ("elf_is_python_extension", S+"elfutils.py"), ("elf_file_filter", S+"elfutils.py")],
 ["results of the elf_* functions"])
prop("C20", "SBOM accounts for every grafted library that has a known package",
 """When libraries were grafted and at least one comes from a known package, the SBOM's first component and metadata describe the wheel (name,
 version and package URL with the file name), and each identified library contributes exactly one component with its provider's name, version and package URL
 under a reference unique to that library, one dependency entry, and one edge from the wheel to it. Without grafted files or identified packages there is no SBOM, and an
 unparsable wheel name is an error.""",
 ["inputs"], "All wheel names and all maps from libraries to packages.",
 "Two unit tests use a single library.",
 [S+"sboms.py"], [("create_sbom_for_wheel", S+"sboms.py")], ["SBOM document"])
prop("C21", "JSON report agrees with the analysis",
 """The JSON report of 'auditwheel show' carries the overall and symbol tags, sets its UCS2, PyFPE and unsupported-ISA flags exactly when that
 verdict is generic linux, lists all versioned symbols sorted, and gives the external libraries of the highest policy with their paths or null. It lists as possible upgrades exactly the policies ranked
 above the overall one that require eliminating libraries or deny-listed symbols, each with precisely those.""",
 ["inputs"], "All analysis results.",
 "A dozen tests with fixed mock analyses.",
 [S+"main_show.py"], [("_output_json", S+"main_show.py")], ["printed JSON"])
prop("C22", "Dependency trees of bundled non-Python libraries are completed soundly",
 """If a bundled non-Python library has unresolved dependencies and occurs in some fully resolved dependency tree of the wheel, each unresolved dependency that tree
 knows is taken from it together with everything that dependency needs in turn; dependencies already resolved are kept as they were, and those the tree does not know
 stay unresolved. Fully resolved trees and Python extension trees are never altered, and no dependency is ever lost.""",
 ["inputs"], "All collections of dependency trees.",
 "Six parametrised tests on three-library examples.",
 [S+"wheel_abi.py"], [("_fixup_elf_trees", S+"wheel_abi.py")], ["dependency trees after completion"])
prop("C23", "Wheel-wide ELF evidence covers every relevant file",
 """Analysis of a wheel rejects any wheel with an ELF file under a purelib directory and any wheel without an ELF file for the target architecture; files of another
 architecture or another C library are left out entirely. Versioned symbols are the union over all remaining files, UCS2 and PyFPE use is reported if
 any (for UCS2: Python 2) extension shows it, every remaining file has its external references recorded, and the files judged for the verdict are all Python extensions plus every other file whose
 name no remaining file depends on.""",
 ["inputs"], "All sets of ELF files in a wheel, in any order.",
 "The bundled wheels have one or two ELF files each.",
 [S+"wheel_abi.py"], [("get_wheel_elfdata", S+"wheel_abi.py")], ["analysis result"])
prop("C24", "ELF executables in scripts become working shims",
 """When repair needs to patch an ELF executable in the wheel's data scripts directory, the executable is moved unchanged under the wheel's own
 '.scripts' directory and replaced by a Python launcher that executes exactly that moved file from the platform library directory with the original arguments, keeping the executable's permission bits.
 Any patches already requested for the executable follow it to the new place, and files that are not directly in a data scripts directory are never moved.""",
 ["inputs"], "All file paths, package names, contents and permission bits.",
 "No stable test covers the shim; it is only exercised in Docker-based tests.",
 [S+"repair.py"], [("_replace_elf_script_with_shim", S+"repair.py"), ("_path_is_script", S+"repair.py"), ("_script_shim", S+"repair.py")],
 ["files in the output wheel"])
pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
