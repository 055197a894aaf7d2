From bc88940541007d2e010bb7399f399c220fb81578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:59 +0000
Subject: [PATCH 1/9] fix: do not write an output wheel when the work on it
 failed, always leave the temporary directory

---
 src/auditwheel/wheeltools.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 0ac4c3a..fc10660 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -137,14 +137,18 @@ class InWheel(InTemporaryDirectory):
         value: BaseException | None,
         tb: TracebackType | None,
     ) -> None:
-        if self.out_wheel is not None:
-            rewrite_record(self.name)
-            date_time = None
-            timestamp = os.environ.get("SOURCE_DATE_EPOCH")
-            if timestamp:
-                date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
-            dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
-        return super().__exit__(exc, value, tb)
+        try:
+            # don't write anything if the work on the wheel failed
+            if exc is None and self.out_wheel is not None:
+                rewrite_record(self.name)
+                date_time = None
+                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
+                if timestamp:
+                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
+                dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
+        finally:
+            # always restore the working directory & remove the temporary one
+            super().__exit__(exc, value, tb)
 
 
 class InWheelCtx(InWheel):
-- 
2.43.0


From 862b5cffbc9db36b51deae5e3c101ac0422066c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 2/9] fix: refuse to repair wheels using PyFPE_jbuf

---
 src/auditwheel/main_repair.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/auditwheel/main_repair.py b/src/auditwheel/main_repair.py
index 937d4ae..8cdf3e6 100644
--- a/src/auditwheel/main_repair.py
+++ b/src/auditwheel/main_repair.py
@@ -245,6 +245,13 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
             )
             parser.error(msg)
 
+        if requested_policy > wheel_abi.pyfpe_policy:
+            msg = (
+                f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
+                "uses the PyFPE_jbuf function."
+            )
+            parser.error(msg)
+
         if requested_policy > wheel_abi.blacklist_policy:
             msg = (
                 f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
-- 
2.43.0


From 938ac46d73188a22cf1e797444d6bbfa53cceca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:39 +0000
Subject: [PATCH 3/9] fix: select policies by baseline architecture

---
 src/auditwheel/policy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/policy/__init__.py b/src/auditwheel/policy/__init__.py
index b55fc59..087c0d6 100644
--- a/src/auditwheel/policy/__init__.py
+++ b/src/auditwheel/policy/__init__.py
@@ -93,7 +93,7 @@ class WheelPolicies:
                 self._musl_policy,
             }:
                 continue
-            if arch.value in policy["symbol_versions"] or policy["name"] == "linux":
+            if base_arch in policy["symbol_versions"] or policy["name"] == "linux":
                 name = f"{policy['name']}_{base_arch}"
                 if policy["name"] != "linux":
                     symbol_versions = {
-- 
2.43.0


From 40dff655a1a0a3520385389525e6d9ec0b7648a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 4/9] fix: consider policy aliases when counting the libraries
 grafted for the requested policy

---
 src/auditwheel/wheel_abi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index b377e3a..3db0e03 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -500,7 +500,10 @@ def analyze_wheel_abi(
             (
                 len(e.libs)
                 for e in external_refs.values()
-                if e.policy.name.startswith(f"{requested_policy_base_name}_")
+                if any(
+                    name.startswith(f"{requested_policy_base_name}_")
+                    for name in (e.policy.name, *e.policy.aliases)
+                )
             ),
             default=0,
         )
-- 
2.43.0


From 08b34189bd3293c22c3c1fde25614491a15607b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 5/9] fix: skip files that are not ELF files when looking up a
 library

---
 src/auditwheel/lddtree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index af46a8e..a20adb8 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -23,6 +23,7 @@ from dataclasses import dataclass
 from fnmatch import fnmatch
 from pathlib import Path
 
+from elftools.common.exceptions import ELFError
 from elftools.elf.constants import E_FLAGS
 from elftools.elf.dynamic import DynamicSegment
 from elftools.elf.elffile import ELFFile
@@ -425,7 +426,11 @@ def find_lib(
 
         if target.exists():
             with open(target, "rb") as f:
-                libelf = ELFFile(f)
+                try:
+                    libelf = ELFFile(f)
+                except ELFError:
+                    # not an ELF file, e.g. a linker script
+                    continue
                 if platform.is_compatible(_get_platform(libelf)):
                     return target, path
 
-- 
2.43.0


From a74ddf15e96064fbd8ab94a632c1d9329627cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 6/9] fix: never leave a partially packed wheel behind

---
 src/auditwheel/wheeltools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index fc10660..6b41e0a 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -15,6 +15,7 @@ from base64 import urlsafe_b64encode
 from datetime import datetime, timezone
 from itertools import product
 from pathlib import Path
+from tempfile import TemporaryDirectory
 from typing import TYPE_CHECKING
 
 from packaging.utils import parse_wheel_filename
@@ -145,7 +146,11 @@ class InWheel(InTemporaryDirectory):
                 timestamp = os.environ.get("SOURCE_DATE_EPOCH")
                 if timestamp:
                     date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
-                dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
+                # only ever leave a complete wheel behind
+                with TemporaryDirectory(dir=self.out_wheel.parent) as staging_dir:
+                    staged = Path(staging_dir) / self.out_wheel.name
+                    dir2zip(self.name, staged, self.zip_compression_level, date_time)
+                    staged.replace(self.out_wheel)
         finally:
             # always restore the working directory & remove the temporary one
             super().__exit__(exc, value, tb)
-- 
2.43.0


From 64e3e6ab0c9447634613c5db0ab27a369813380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:13 +0000
Subject: [PATCH 7/9] fix: do not fail when no tag is left in the WHEEL
 metadata

---
 src/auditwheel/wheeltools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 6b41e0a..d7575bf 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -287,7 +287,7 @@ def add_platforms(
             info["Root-Is-Purelib"] = "False"
             logger.info("Changed wheel type to Platlib")
 
-        logger.info("New WHEEL info tags: %s", ", ".join(info.get_all("Tag")))
+        logger.info("New WHEEL info tags: %s", ", ".join(updated_tags))
         write_pkg_info(info_fname, info)
     else:
         logger.info("No WHEEL info change needed.")
-- 
2.43.0


From 28094c7c04798a97c4d6769ff7639c9679bf673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:32 +0000
Subject: [PATCH 8/9] fix: pack files modified before 1980

---
 src/auditwheel/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/tools.py b/src/auditwheel/tools.py
index 639a065..aa31750 100644
--- a/src/auditwheel/tools.py
+++ b/src/auditwheel/tools.py
@@ -160,13 +160,13 @@ def dir2zip(
         for dname, _, files in walk(in_dir):
             if dname != in_dir:
                 out_dname = f"{dname.relative_to(in_dir)}/"
-                zinfo = zipfile.ZipInfo.from_file(dname, out_dname)
+                zinfo = zipfile.ZipInfo.from_file(dname, out_dname, strict_timestamps=False)
                 zinfo.date_time = date_time_args
                 z.writestr(zinfo, b"")
             for file in files:
                 fname = dname / file
                 out_fname = fname.relative_to(in_dir)
-                zinfo = zipfile.ZipInfo.from_file(fname, out_fname)
+                zinfo = zipfile.ZipInfo.from_file(fname, out_fname, strict_timestamps=False)
                 zinfo.date_time = date_time_args
                 zinfo.compress_type = compression
                 with fname.open("rb") as fp:
-- 
2.43.0


From 326dbbdde94ae06b5c557e2ab37b8423bd360c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:57 +0000
Subject: [PATCH 9/9] fix: relink every grafted copy when one SONAME leads to
 several files

The map of grafted libraries was keyed by SONAME, so that of two
different libraries of that name grafted for two files of the wheel only
the last one had its own dependencies renamed and its RPATH rewritten.
---
 src/auditwheel/repair.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index b9ca254..825fda8 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -45,7 +45,8 @@ def repair_wheel(
     if not external_refs_by_fn:
         return None
 
-    soname_map: dict[str, tuple[str, Path]] = {}
+    # grafted library -> new names of the libraries grafted along with it
+    grafted: dict[Path, dict[str, str]] = {}
 
     out_dir = out_dir.resolve(strict=True)
     wheel_fname = wheel_path.name
@@ -74,6 +75,7 @@ def repair_wheel(
         for fn, v in external_refs_by_fn.items():
             ext_libs = v[abis[0]].libs
             replacements: list[tuple[str, str]] = []
+            new_paths: list[Path] = []
             for soname, src_path in ext_libs.items():
                 # Handle libpython dependencies by removing them
                 if LIBPYTHON_RE.match(soname):
@@ -97,8 +99,10 @@ def repair_wheel(
                     dest_dir.mkdir()
                 sbom_filepaths.append(src_path)
                 new_soname, new_path = copylib(src_path, dest_dir, patcher)
-                soname_map[soname] = (new_soname, new_path)
+                new_paths.append(new_path)
                 replacements.append((soname, new_soname))
+            for new_path in new_paths:
+                grafted.setdefault(new_path, {}).update(replacements)
             if replacements:
                 patcher.replace_needed(fn, *replacements)
 
@@ -116,12 +120,12 @@ def repair_wheel(
         # we need to update those records so each now knows about the new
         # name of the other.
         # we also clear or set RPATH depending on the presence of internal dependencies
-        for _, path in soname_map.values():
+        for path, new_sonames in grafted.items():
             needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
             replacements = []
             for n in needed:
-                if n in soname_map:
-                    replacements.append((n, soname_map[n][0]))
+                if n in new_sonames:
+                    replacements.append((n, new_sonames[n]))
             if replacements:
                 patcher.set_rpath(path, "$ORIGIN")
                 patcher.replace_needed(path, *replacements)
@@ -131,9 +135,8 @@ def repair_wheel(
         # strip before applying ELF patches to reduce chances of an invalid ELF being produced
         # as seen in https://github.com/pypa/auditwheel/issues/716
         if strip:
-            libs_to_strip = [path for (_, path) in soname_map.values()]
             extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
-            strip_symbols(itertools.chain(libs_to_strip, extensions))
+            strip_symbols(itertools.chain(grafted, extensions))
 
         patcher.apply_updates()
 
-- 
2.43.0

