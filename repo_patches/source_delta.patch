From 8c2f74e8d4645b6a05b4c1267ff5446265efae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 01/37] fix: write meta data files atomically

A crash or a disk error while saving left a truncated .ipkg.meta or
repository.json behind: the whole environment or repository was lost.
---
 ipkg/files/atomic.py | 22 ++++++++++++++++++++++
 ipkg/utils.py        |  4 ++--
 2 files changed, 24 insertions(+), 2 deletions(-)
 create mode 100644 ipkg/files/atomic.py

diff --git a/ipkg/files/atomic.py b/ipkg/files/atomic.py
new file mode 100644
index 0000000..0812d72
--- /dev/null
+++ b/ipkg/files/atomic.py
@@ -0,0 +1,22 @@
+"""Atomic file writes.
+"""
+import os
+
+
+def write_file(filepath, content):
+    """Set the content of a file, atomically.
+
+    Other processes see either the old or the new content of the file,
+    and this is also what is left of it after a crash.
+    """
+    temporary = '%s.%d.tmp' % (filepath, os.getpid())
+    try:
+        with open(temporary, 'wb') as fileobj:
+            fileobj.write(content)
+            fileobj.flush()
+            os.fsync(fileobj.fileno())
+        os.rename(temporary, filepath)
+    except:
+        if os.path.exists(temporary):
+            os.unlink(temporary)
+        raise
diff --git a/ipkg/utils.py b/ipkg/utils.py
index c1ab436..5b57fa0 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -9,6 +9,7 @@ import errno
 import shlex
 
 from .files import vopen
+from .files.atomic import write_file
 from .exceptions import IpkgException, InvalidPackage
 from .compat import basestring, StringIO
 from .regex import PACKAGE_SPEC
@@ -81,8 +82,7 @@ class DictFile(dict):
     def save(self):
         LOGGER.debug('Writing %s', self.__file_path)
         # This will break if trying to call save() on a remote DictFile
-        with open(self.__file_path, 'w') as f:
-            json.dump(self, f, indent=4)
+        write_file(self.__file_path, json.dumps(self, indent=4))
 
 
 def execute(command,
-- 
2.43.0


From f3e9f61119d7653dd11ecaef0c6e9a85aa5cad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 02/37] fix: never leave a truncated file in the cache

An interrupted or failed write left a partial entry, which was then served
for every later download of the same URL.
---
 ipkg/files/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipkg/files/cache.py b/ipkg/files/cache.py
index 4015710..02d662c 100644
--- a/ipkg/files/cache.py
+++ b/ipkg/files/cache.py
@@ -2,6 +2,7 @@ from logging import getLogger
 from os import path, environ
 from hashlib import sha256
 
+from .atomic import write_file
 from .exceptions import FilesException
 
 
@@ -47,8 +48,7 @@ def has(name):
 
 def set(name, content):
     try:
-        with open(get_cache_filepath(name), 'wb') as f:
-            f.write(content)
+        write_file(get_cache_filepath(name), content)
     except Exception as exc:
         LOGGER.exception('Failed to add %s to cache', name)
     else:
-- 
2.43.0


From 1d019c417c9a994348d15d0d2cd7bfa66e220fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 03/37] fix: installing another version of a package failed
 with NotInstalled

---
 ipkg/environments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index d72abc8..eaab527 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -353,7 +353,7 @@ class Environment(object):
                     # Different version/revision, uninstall it
                     LOGGER.debug('Another version of %r is installed, '
                                  'uninstalling it first' % package)
-                    self.uninstall(package)
+                    self.uninstall(package.name)
                 break
 
         # Install dependencies
-- 
2.43.0


From a35dd3e3dff6a46d2e239608700b0e0a5e0ce32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 04/37] fix: do not remember changes which could not be saved

When saving the environment meta data failed, retrying on the same
Environment object did nothing and reported a success.
---
 ipkg/environments.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index eaab527..54335d0 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -313,8 +313,13 @@ class Environment(object):
                 LOGGER.debug('Ignoring %s', path)
 
         # Remove package from environment meta data
-        self.meta['packages'].pop(package)
-        self.meta.save()
+        meta = self.meta['packages'].pop(package)
+        try:
+            self.meta.save()
+        except:
+            # It is still there as long as this is not recorded
+            self.meta['packages'][package] = meta
+            raise
 
         LOGGER.info('Package %s uninstalled', package)
 
@@ -380,7 +385,12 @@ class Environment(object):
 
         # Write package meta data in environment
         self.meta['packages'][package.name] = package.meta
-        self.meta.save()
+        try:
+            self.meta.save()
+        except:
+            # It is not installed until this is recorded
+            self.meta['packages'].pop(package.name)
+            raise
 
         # Load package custom environment variables
         if package.envvars is not None:
@@ -396,5 +406,10 @@ class Environment(object):
         return self.meta['config'].get(key)
 
     def set_config(self, key, value):
+        previous = dict(self.meta['config'])
         self.meta['config'][key] = value
-        self.meta.save()
+        try:
+            self.meta.save()
+        except:
+            self.meta['config'] = previous
+            raise
-- 
2.43.0


From 8a83efe96b100520d362c286a5adb6564c186b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 05/37] fix: an environment variable with a % sign broke the
 whole environment

---
 ipkg/environments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 54335d0..3967ff4 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -232,7 +232,7 @@ class EnvironmentVariables(dict):
         for var_name, var_value in variables.items():
             try:
                 var_value = var_value % self.__directories
-            except KeyError:
+            except (KeyError, ValueError, TypeError):
                 # invalid format string ?
                 pass
 
-- 
2.43.0


From a91c03efabb49c58e6a2ad374d93a962bacdff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 06/37] fix: an error page or an incomplete download is not the
 requested file

HTTP error statuses and connections closed early were accepted as the
content of the file (and stored in the cache), and errors in the middle of
a download were not reported as ipkg errors.
---
 ipkg/files/backends/http.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index 3297041..b178e7e 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -1,6 +1,7 @@
 import logging
 
 import requests
+from requests.packages.urllib3.exceptions import HTTPError
 
 from . import BaseFile, BackendException
 from .. import cache
@@ -25,11 +26,7 @@ class HttpFile(BaseFile):
         LOGGER.info('Downloading: %s', self.name)
         try:
             response = requests.get(self.name, stream=True)
-
-        except requests.RequestException as exc:
-            raise HttpFileException(str(exc))
-
-        else:
+            response.raise_for_status()
             content = StringIO()
 
             while True:
@@ -39,6 +36,17 @@ class HttpFile(BaseFile):
                 else:
                     break
 
+        except (requests.RequestException, HTTPError, IOError) as exc:
+            raise HttpFileException(str(exc))
+
+        else:
+            size = content.tell()
+            expected_size = response.headers.get('content-length')
+            if expected_size is not None and size != int(expected_size):
+                raise HttpFileException('Incomplete download of %s: got %s '
+                                        'bytes, expected %s' %
+                                        (self.name, size, expected_size))
+
             content.seek(0)
 
             if cache.is_active():
-- 
2.43.0


From 865d9cb4c33bfc3e0bb5244064d7e6f486bbff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 07/37] fix: .pc and .la files without a prefix line could not
 be installed

---
 ipkg/prefix_rewriters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index cd1960b..221d9bc 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -43,7 +43,7 @@ def rewrite_text_first_match(file_path, line_start, build_prefix,
         lines = f.readlines()
 
     with open(file_path, 'w') as f:
-        while True:
+        while lines:
             line = lines.pop(0)
 
             if line.startswith(line_start):
-- 
2.43.0


From f7417509236eb8d12a63fa4444f2454982b6fc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 08/37] fix: files missing from packages

Links to directories were left out, paths were wrong when the prefix
appears again in them (/py and lib/python), and directories which could not
be read were silently ignored.
---
 ipkg/build.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 9fa1a90..77dd1f9 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -40,10 +40,17 @@ class IncompleteFormula(BuildError):
 def find_files(base):
     """Create a list of files in prefix ``base``.
     """
+    def fail(error):
+        # os.walk() ignores errors by default
+        raise error
+
     result = []
-    for parent, _, files in os.walk(base):
-        rel_dir = parent.split(base)[1][1:]
-        for filename in files:
+    for parent, directories, files in os.walk(base, onerror=fail):
+        rel_dir = parent[len(base):].lstrip(os.sep)
+        # os.walk() reports links to directories as directories
+        links = [d for d in directories
+                 if os.path.islink(os.path.join(parent, d))]
+        for filename in files + links:
             result.append(os.path.join(rel_dir, filename))
     return result
 
-- 
2.43.0


From 2d0eddf4ba594731aa9d1a77c5da6ab3545434ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 09/37] fix: an interrupted build left a truncated package
 behind

---
 ipkg/build.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 77dd1f9..71b2f69 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -266,12 +266,23 @@ class Formula(NameVersionRevisionComparable):
         meta_tarinfo.mode = 0644
         meta_tarinfo.size = meta_string_size
 
-        pkg = tarfile.open(filepath, 'w:bz2')
-        pkg.addfile(meta_tarinfo, meta_string)
-        for pkg_file in files:
-            pkg.add(os.path.join(self.environment.prefix, pkg_file),
-                    pkg_file, recursive=False)
-        pkg.close()
+        # Nobody should see the package before it is complete
+        temporary = '%s.%d.tmp' % (filepath, os.getpid())
+        try:
+            with open(temporary, 'wb') as fileobj:
+                pkg = tarfile.open(fileobj=fileobj, mode='w:bz2')
+                pkg.addfile(meta_tarinfo, meta_string)
+                for pkg_file in files:
+                    pkg.add(os.path.join(self.environment.prefix, pkg_file),
+                            pkg_file, recursive=False)
+                pkg.close()
+                fileobj.flush()
+                os.fsync(fileobj.fileno())
+            os.rename(temporary, filepath)
+        except:
+            if os.path.exists(temporary):
+                os.unlink(temporary)
+            raise
 
         LOGGER.info('Package %s created', filepath)
 
-- 
2.43.0


From 36acbdb2faee3f0b8c99f1d13b1c3a916c42bacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 10/37] fix: check packages against the checksum in the
 repository meta data

---
 ipkg/packages.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ipkg/packages.py b/ipkg/packages.py
index d7923ba..0505f38 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -1,6 +1,7 @@
 import os
 import json
 import tarfile
+import hashlib
 import logging
 
 from .files import vopen
@@ -63,7 +64,12 @@ class PackageFile(MetaPackage):
     @property
     def _tarfile(self):
         if self.__tarfile is None:
-            self.__tarfile = tarfile.open(fileobj=vopen(self.path))
+            # Repositories know the checksum of their packages
+            checksum = self.__meta.get('checksum') if self.__meta else None
+            fileobj = vopen(self.path, expected_hash=checksum,
+                            hash_class=hashlib.sha256)
+            fileobj.verify_checksum()
+            self.__tarfile = tarfile.open(fileobj=fileobj)
         return self.__tarfile
 
     def extract(self, path):
-- 
2.43.0


From 5eb43d877432117984f4926137d42ea445d2bcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 11/37] fix: remote repositories were always empty

---
 ipkg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 5b57fa0..8759230 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -61,7 +61,7 @@ class DictFile(dict):
         self.reload()
 
     def reload(self):
-        if os.path.isfile(self.__file_path):
+        if '://' in self.__file_path or os.path.isfile(self.__file_path):
             LOGGER.debug('Loading %s', self.__file_path)
             raw = vopen(self.__file_path).read()
             if raw:
-- 
2.43.0


From 83fdcac0ebdc4490d819b91a0a85cccb5098934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 12/37] fix: do not remove the repository meta data before
 updating it

Anybody using the repository meanwhile saw it empty, for ever if the update
was interrupted or failed. It failed as soon as something else than a
package was lying in a package directory.
---
 ipkg/repositories.py | 8 +++++---
 ipkg/utils.py        | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index a0c3017..e6d93ef 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -94,7 +94,8 @@ class LocalPackageRepository(PackageRepository):
         """Update the repository meta data file."""
         LOGGER.info('Updating metadata of %r', self)
         meta = self.meta
-        meta.clear()
+        # Only forget what we knew, others may be using the file
+        dict.clear(meta)
         names = os.listdir(self.base)
 
         for name in names:
@@ -112,8 +113,9 @@ class LocalPackageRepository(PackageRepository):
             for filename in os.listdir(package_dir):
                 filepath = os.path.join(package_dir, filename)
 
-                if not os.path.isfile(filepath):
-                    #LOGGER.debug('Ignoring, because it is not a file: %s',
+                if not os.path.isfile(filepath) or \
+                   not filename.endswith('.ipkg'):
+                    #LOGGER.debug('Ignoring, because it is not a package: %s',
                     #             filepath)
                     continue
 
diff --git a/ipkg/utils.py b/ipkg/utils.py
index 8759230..03783bc 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -77,7 +77,7 @@ class DictFile(dict):
         """
         if os.path.isfile(self.__file_path):
             os.unlink(self.__file_path)
-            super(DictFile, self).clear()
+        super(DictFile, self).clear()
 
     def save(self):
         LOGGER.debug('Writing %s', self.__file_path)
-- 
2.43.0


From 58ec6c061303d0c2d6863aabed949471016449d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 13/37] fix: building a package again added it twice to the
 repository

---
 ipkg/repositories.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index e6d93ef..8e64683 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -224,6 +224,10 @@ class LocalPackageRepository(PackageRepository):
             LOGGER.debug('sha256: %s', checksum)
             package_meta['checksum'] = checksum
 
+        # This package replaces the one which had the same file name, if any
+        filename = make_filename(**package_meta)
+        meta[package.name] = [m for m in meta[package.name]
+                              if make_filename(**m) != filename]
         meta[package.name].append(package_meta)
 
         LOGGER.info('Package %s added to repository', package)
-- 
2.43.0


From f3b2b2d970d621e7251cd3da79efbf5a5912f4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 14/37] fix: builds did not leave the environment as they found
 it

Dependencies which were there before the build were uninstalled, those
installed on behalf of other dependencies were not, and those with a version
could not be. A failed build left behind what it installed, which was then
missing from the package made by the next build.
---
 ipkg/build.py | 58 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 71b2f69..80c1caa 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -149,7 +149,6 @@ class Formula(NameVersionRevisionComparable):
         LOGGER.debug('%r.build(package_dir=%s, remove_build_dir=%s)',
                      self, package_dir, remove_build_dir)
 
-        installed_dependencies = []
         build_dir = tempfile.mkdtemp(prefix='ipkg-build-')
 
         # Create a temporary env if no env has been previously defined
@@ -163,6 +162,39 @@ class Formula(NameVersionRevisionComparable):
             self.environment.variables.add(self.build_envvars)
 
         env_prefix = self.environment.prefix
+        packages_before_build = set(self.environment.meta['packages'])
+        self.__files_before_install = None
+
+        try:
+            ipkg_file = self.__build_package(build_dir, package_dir,
+                                             repository)
+        finally:
+            # Cleanup: leave the environment as it was, even if the build
+            # failed. Otherwise what this build installed would be missing
+            # from the package made by the next one.
+            if self.__files_before_install is not None:
+                LOGGER.debug('Removing files installed in build environment')
+                for package_file in (set(find_files(env_prefix)) -
+                                     self.__files_before_install):
+                    package_file_path = os.path.join(env_prefix, package_file)
+                    os.unlink(package_file_path)
+
+            LOGGER.debug('Uninstalling dependencies from build environment')
+            for dependency in (set(self.environment.meta['packages']) -
+                               packages_before_build):
+                self.environment.uninstall(dependency)
+
+        if remove_build_dir:
+            LOGGER.debug('Removing build directory: %s', build_dir)
+            shutil.rmtree(build_dir)
+
+        LOGGER.info('Build done')
+
+        return ipkg_file
+
+    def __build_package(self, build_dir, package_dir, repository):
+        """Build the package in the build environment."""
+        env_prefix = self.environment.prefix
 
         # Install dependencies in build environment
         if self.dependencies:
@@ -171,7 +203,6 @@ class Formula(NameVersionRevisionComparable):
             for dependency in self.dependencies:
                 if dependency not in self.environment.packages:
                     self.environment.install(dependency, repository)
-                    installed_dependencies.append(dependency)
 
         # Create the sources root directory
         self.src_root = src_root = os.path.join(build_dir, 'sources')
@@ -191,6 +222,7 @@ class Formula(NameVersionRevisionComparable):
         # Create a list of the files contained in the environment before
         # running "make install"
         files_before_install = set(find_files(env_prefix))
+        self.__files_before_install = files_before_install
 
         # Compile and install the code
         self.install()
@@ -198,27 +230,7 @@ class Formula(NameVersionRevisionComparable):
         # Compare the current environment file list with the previous one
         package_files = set(find_files(env_prefix)) - files_before_install
         # Use the list of new files to create a package
-        ipkg_file = self.__create_package(package_files,
-                                          env_prefix, package_dir)
-
-        # Cleanup
-        LOGGER.debug('Removing files installed in build environment')
-        for package_file in package_files:
-            package_file_path = os.path.join(env_prefix, package_file)
-            os.unlink(package_file_path)
-
-        if self.dependencies:
-            LOGGER.debug('Uninstalling dependencies from build environment')
-            for dependency in self.dependencies:
-                self.environment.uninstall(dependency)
-
-        if remove_build_dir:
-            LOGGER.debug('Removing build directory: %s', build_dir)
-            shutil.rmtree(build_dir)
-
-        LOGGER.info('Build done')
-
-        return ipkg_file
+        return self.__create_package(package_files, env_prefix, package_dir)
 
     def install(self):
         """Run ``./configure``, ``make`` and ``make install``.
-- 
2.43.0


From d4c79a5b343da4b2695d7a08a6bfff5a1e63e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 15/37] fix: building formulas which depend on each other never
 ended

And dependencies were looked up among the paths of the new packages.
---
 ipkg/repositories.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index 8e64683..f6bbb1e 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -144,6 +144,8 @@ class LocalPackageRepository(PackageRepository):
         """
         formulas = []  # formulas not already built
         built_packages = []  # new packages
+        built_formulas = []  # formulas of the new packages
+        delayed = 0  # formulas delayed since the last build
 
         LOGGER.debug('Building repository packages list...')
         repo_packages = list(self)
@@ -160,6 +162,13 @@ class LocalPackageRepository(PackageRepository):
             for dependency in formula.dependencies:
 
                 if dependency in formulas:
+                    if delayed > len(formulas):
+                        # All remaining formulas wait for each other
+                        LOGGER.error('Cannot build %s: dependency loop on %s' %
+                                     (formula, dependency))
+                        build_later = True
+                        break
+                    delayed += 1
                     formulas.append(formula)
                     build_later = True
                     LOGGER.debug('Delaying build of %s because it requires '
@@ -172,7 +181,7 @@ class LocalPackageRepository(PackageRepository):
                 if ((environment is not None and
                      dependency in environment.packages)
                         or dependency in repo_packages
-                        or dependency in built_packages):
+                        or dependency in built_formulas):
                     continue
 
                 else:
@@ -181,6 +190,7 @@ class LocalPackageRepository(PackageRepository):
                     break
 
             if not build_later:
+                delayed = 0
 
                 try:
                     package_file = self.build_formula(formula)
@@ -191,6 +201,7 @@ class LocalPackageRepository(PackageRepository):
 
                 else:
                     built_packages.append(package_file)
+                    built_formulas.append(formula)
 
         return built_packages
 
-- 
2.43.0


From 39ae89c88fbca8670ea9205e5fc53418ae3dab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 16/37] fix: leftovers of an interrupted installation corrupted
 the next one

---
 ipkg/packages.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipkg/packages.py b/ipkg/packages.py
index 0505f38..34c5e7d 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -77,6 +77,12 @@ class PackageFile(MetaPackage):
         """
         LOGGER.debug('Extracting %s in %s', self, path)
         files = [m for m in self._tarfile.getmembers() if m.path != META_FILE]
+        for member in files:
+            # Something may be left of an interrupted installation:
+            # do not write through its links, nor to its read-only files
+            target = os.path.join(path, member.path)
+            if os.path.isfile(target) or os.path.islink(target):
+                os.unlink(target)
         self._tarfile.extractall(path, files)
 
 
-- 
2.43.0


From dca04563d8ca587095e9b2e544446a8f3be56263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 17/37] fix: only root could install packages with read-only
 scripts

---
 ipkg/prefix_rewriters.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index 221d9bc..d3b6f74 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -1,6 +1,7 @@
 import os
 import stat
 import logging
+from contextlib import contextmanager
 
 from .utils import execute, PIPE
 from .regex import PKGCONFIG_FILE, LIBTOOL_FILE
@@ -34,6 +35,21 @@ def rewrite_prefix(package_file, build_prefix, install_prefix):
             #             'cannot detect file type', file_path)
 
 
+@contextmanager
+def writable(file_path):
+    """Add the write flag to a file, then restore its permissions.
+    """
+    mode = stat.S_IMODE(os.stat(file_path).st_mode)
+    if mode & stat.S_IWRITE:
+        yield
+    else:
+        os.chmod(file_path, mode | stat.S_IWRITE)
+        try:
+            yield
+        finally:
+            os.chmod(file_path, mode)
+
+
 def rewrite_text_first_match(file_path, line_start, build_prefix,
                              install_prefix):
     """Rewrite the prefix. Only apply to the first line starting with
@@ -42,7 +58,7 @@ def rewrite_text_first_match(file_path, line_start, build_prefix,
     with open(file_path, 'r') as f:
         lines = f.readlines()
 
-    with open(file_path, 'w') as f:
+    with writable(file_path), open(file_path, 'w') as f:
         while lines:
             line = lines.pop(0)
 
@@ -83,7 +99,7 @@ def rewrite_text_first_line(file_path, build_prefix, install_prefix):
 
     first_line = first_line.replace(build_prefix, install_prefix)
 
-    with open(file_path, 'w') as f:
+    with writable(file_path), open(file_path, 'w') as f:
         f.write(first_line)
         f.writelines(other_lines)
 
-- 
2.43.0


From 7f7a05e9f45641ea20638c1f73cd18dd8cd822b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 18/37] fix: an interrupted cleanup of the temporary directory
 could not be resumed

---
 ipkg/environments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 3967ff4..7afe0ad 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -287,7 +287,8 @@ class Environment(object):
         """Remove then re-create the temporary files directory.
         """
         tmpdir = self.directories['tmp']
-        shutil.rmtree(tmpdir)
+        if os.path.isdir(tmpdir):
+            shutil.rmtree(tmpdir)
         mkdir(tmpdir)
 
     def uninstall(self, package):
-- 
2.43.0


From 0d873a26de7a2ddf7d8979731d820cd81988dda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:33 +0000
Subject: [PATCH 19/37] fix: a corrupted download stayed in the cache for ever

---
 ipkg/files/backends/http.py | 10 +++++++++-
 ipkg/files/cache.py         | 12 +++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index b178e7e..f3a399e 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -3,7 +3,7 @@ import logging
 import requests
 from requests.packages.urllib3.exceptions import HTTPError
 
-from . import BaseFile, BackendException
+from . import BaseFile, BackendException, InvalidChecksum
 from .. import cache
 from ...compat import StringIO
 
@@ -64,6 +64,14 @@ class HttpFile(BaseFile):
                 self.__download()
         return self.__file
 
+    def verify_checksum(self):
+        try:
+            super(HttpFile, self).verify_checksum()
+        except InvalidChecksum:
+            # Download it again next time
+            cache.remove(self.name)
+            raise
+
     def seek(self, *args):
         self.__get_file().seek(*args)
 
diff --git a/ipkg/files/cache.py b/ipkg/files/cache.py
index 02d662c..2fac202 100644
--- a/ipkg/files/cache.py
+++ b/ipkg/files/cache.py
@@ -1,5 +1,5 @@
 from logging import getLogger
-from os import path, environ
+from os import path, environ, unlink
 from hashlib import sha256
 
 from .atomic import write_file
@@ -60,3 +60,13 @@ def get(name):
         filepath = get_cache_filepath(name)
         LOGGER.debug('Found %s in cache', name)
         return open(filepath)
+
+
+def remove(name):
+    if has(name):
+        try:
+            unlink(get_cache_filepath(name))
+        except OSError:
+            LOGGER.exception('Failed to remove %s from cache', name)
+        else:
+            LOGGER.debug('Removed %s from cache', name)
-- 
2.43.0


From 53180b91427793eec7abd4bc793d7853b114118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:02 +0000
Subject: [PATCH 20/37] fix: formulas waiting for a dependency loop were not
 built

Others provide what they need.
---
 ipkg/repositories.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index f6bbb1e..cfdc2b5 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -161,13 +161,18 @@ class LocalPackageRepository(PackageRepository):
 
             for dependency in formula.dependencies:
 
-                if dependency in formulas:
-                    if delayed > len(formulas):
-                        # All remaining formulas wait for each other
-                        LOGGER.error('Cannot build %s: dependency loop on %s' %
-                                     (formula, dependency))
-                        build_later = True
-                        break
+                # If the dependency is installed in the environment or present
+                # in this repository, it is satisfied.
+                available = ((environment is not None and
+                              dependency in environment.packages)
+                             or dependency in repo_packages
+                             or dependency in built_formulas)
+
+                # When all remaining formulas wait for each other, those which
+                # need nothing else are built, then the others cannot be.
+                rounds = 1 if available else 2
+                if dependency in formulas and \
+                   delayed < rounds * (len(formulas) + 1):
                     delayed += 1
                     formulas.append(formula)
                     build_later = True
@@ -176,12 +181,7 @@ class LocalPackageRepository(PackageRepository):
                                  (formula, dependency))
                     break
 
-                # If the dependency is installed in the environment or present
-                # in this repository, it is satisfied.
-                if ((environment is not None and
-                     dependency in environment.packages)
-                        or dependency in repo_packages
-                        or dependency in built_formulas):
+                if available:
                     continue
 
                 else:
-- 
2.43.0


From 3c65081cd81ab7fa1cf5e96c17b5525b34be6a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 21/37] fix: files compressed by the HTTP server could not be
 read

Requests announces that it accepts compressed content, but the raw content is
what is used: the index of a repository on a server which compresses JSON was
not valid.
---
 ipkg/files/backends/http.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index f3a399e..01f8b30 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -25,7 +25,9 @@ class HttpFile(BaseFile):
     def __download(self):
         LOGGER.info('Downloading: %s', self.name)
         try:
-            response = requests.get(self.name, stream=True)
+            # The file itself, not compressed on the way
+            response = requests.get(self.name, stream=True,
+                                    headers={'Accept-Encoding': 'identity'})
             response.raise_for_status()
             content = StringIO()
 
-- 
2.43.0


From 176746e46e56d6266816298f8c1e6e5cc886cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 22/37] fix: a stalled server blocked a download for ever

---
 ipkg/files/backends/http.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index 01f8b30..99b9077 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -9,6 +9,7 @@ from ...compat import StringIO
 
 
 LOGGER = logging.getLogger(__name__)
+TIMEOUT = 60  # seconds without any data from the server
 
 
 class HttpFileException(BackendException):
@@ -26,7 +27,7 @@ class HttpFile(BaseFile):
         LOGGER.info('Downloading: %s', self.name)
         try:
             # The file itself, not compressed on the way
-            response = requests.get(self.name, stream=True,
+            response = requests.get(self.name, stream=True, timeout=TIMEOUT,
                                     headers={'Accept-Encoding': 'identity'})
             response.raise_for_status()
             content = StringIO()
-- 
2.43.0


From 7640412de14f3f068037a71d93b826a36b762c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 23/37] fix: the checksum of a file was only right before
 reading it

---
 ipkg/files/backends/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipkg/files/backends/__init__.py b/ipkg/files/backends/__init__.py
index 62e6a17..20178ff 100644
--- a/ipkg/files/backends/__init__.py
+++ b/ipkg/files/backends/__init__.py
@@ -38,6 +38,7 @@ class BaseFile(object):
         else:
             hash_obj = self.hash_class()
             current_position = self.tell()
+            self.seek(0)
             file_content = self.read()
             self.seek(current_position)
             hash_obj.update(file_content)
-- 
2.43.0


From 19b8ac1288b50103d919a386852d9daede61f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 24/37] fix: HTTP responses which are not the file were taken
 for it

Like 300, 304 or redirections without a location.
---
 ipkg/files/backends/http.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index 99b9077..022704e 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -30,6 +30,10 @@ class HttpFile(BaseFile):
             response = requests.get(self.name, stream=True, timeout=TIMEOUT,
                                     headers={'Accept-Encoding': 'identity'})
             response.raise_for_status()
+            if response.status_code != 200:
+                # neither an error nor the file
+                raise HttpFileException('Unexpected status of %s: %s' %
+                                        (self.name, response.status_code))
             content = StringIO()
 
             while True:
-- 
2.43.0


From 53b3bee43ef61c6e4c79081fe8c0b9a921eac750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 25/37] fix: a cached file which cannot be opened is downloaded
 again

---
 ipkg/files/backends/http.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index 022704e..4f5f403 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -66,8 +66,12 @@ class HttpFile(BaseFile):
     def __get_file(self):
         if self.__file is None:
             if cache.has(self.name):
-                self.__file = cache.get(self.name)
-            else:
+                try:
+                    self.__file = cache.get(self.name)
+                except IOError as exc:
+                    LOGGER.error('Cannot use cached %s: %s', self.name, exc)
+
+            if self.__file is None:
                 self.__download()
         return self.__file
 
-- 
2.43.0


From a14ef6c1f37f8a79a2be9fe63fd6420ffd87fd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 26/37] fix: requirements with != accepted the version they
 exclude

---
 ipkg/requirements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 5c871b7..b8f0bce 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -294,4 +294,7 @@ def remove_useless_version_selectors(version_selectors):
     if l_selector:
         result.append(l_selector)
 
+    for ne_ver in sorted(selectors[operator.ne]):
+        result.append((operator.ne, ne_ver))
+
     return result
-- 
2.43.0


From 47ad1ebf8e6700812f21c63c03150cb40326cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 27/37] fix: requirements with an invalid version raised a
 NameError

---
 ipkg/requirements.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index b8f0bce..0045885 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -29,6 +29,11 @@ class InvalidRequirement(IpkgException):
     MESSAGE = 'Invalid requirement: %s'
 
 
+class InvalidRequirementVersion(InvalidRequirement):
+
+    MESSAGE = 'Invalid requirement version: %s'
+
+
 class ExclusiveVersionRequirements(InvalidRequirement):
 
     MESSAGE = 'Exclusive version requirements for operator %s: %s'
-- 
2.43.0


From 0590657d1f4adaed0d52043a2e200d385ae8d4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:51 +0000
Subject: [PATCH 28/37] fix: mktmpdir failed without a prefix

---
 ipkg/environments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 7afe0ad..11527b4 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -281,7 +281,8 @@ class Environment(object):
 
            It will be stored in the environment ``tmp`` sub-directory.
         """
-        return tempfile.mkdtemp(prefix=prefix, dir=self.directories['tmp'])
+        return tempfile.mkdtemp(prefix=prefix or tempfile.template,
+                                dir=self.directories['tmp'])
 
     def cleanup_tmpdir(self):
         """Remove then re-create the temporary files directory.
-- 
2.43.0


From 128bad0df3564c1bfaf34cb4ff7127502a5c6547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:59 +0000
Subject: [PATCH 29/37] fix: environments given by a relative path only worked
 from one directory

---
 ipkg/environments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 11527b4..61b31bd 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -245,7 +245,8 @@ class Environment(object):
     """
 
     def __init__(self, prefix, directories=None, variables=None):
-        self.prefix = prefix
+        # What runs in the environment may be in any directory
+        self.prefix = prefix = os.path.abspath(prefix)
         self.directories = directories or EnvironmentDirectories(prefix)
         self.variables = variables or EnvironmentVariables(self.directories)
 
-- 
2.43.0


From 1c0304099c6768d80f571670a7e86a6be7b66c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 30/37] fix: files with many names had their prefix rewritten
 many times

---
 ipkg/environments.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 61b31bd..10395f8 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -61,6 +61,13 @@ def current():
         raise UnknownEnvironment()
 
 
+def file_id(file_path):
+    """Returns the same value for all the names of a file.
+    """
+    file_stat = os.stat(file_path)
+    return file_stat.st_dev, file_stat.st_ino
+
+
 class Variable(object):
     """An environment variable with free text value.
     """
@@ -379,12 +386,16 @@ class Environment(object):
         build_prefix = package.meta['build_prefix']
         if build_prefix != self.prefix:
             LOGGER.debug('Rewriting prefix in binaries and scripts')
+            # The prefix of a file which has many names must be rewritten once
+            rewritten = set()
             for pkg_file in package.meta['files']:
                 file_dir, file_name = os.path.split(pkg_file)
                 if file_dir in ('bin', 'sbin') or file_dir.startswith('lib'):
                     file_path = os.path.join(self.prefix, pkg_file)
-                    if isfile(file_path) and not islink(file_path):
+                    if isfile(file_path) and not islink(file_path) and \
+                       file_id(file_path) not in rewritten:
                         rewrite_prefix(pkg_file, build_prefix, self.prefix)
+                        rewritten.add(file_id(file_path))
 
         # Write package meta data in environment
         self.meta['packages'][package.name] = package.meta
-- 
2.43.0


From 2096c2bdb9c15487d4c7ea4a4e547cfeb3413dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 31/37] fix: formulas whose dependencies are more than package
 specs could not be built

---
 ipkg/mixins.py       | 8 +++++++-
 ipkg/requirements.py | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ipkg/mixins.py b/ipkg/mixins.py
index 74c34be..650c49b 100644
--- a/ipkg/mixins.py
+++ b/ipkg/mixins.py
@@ -3,6 +3,8 @@ import operator
 from pkg_resources import parse_version
 
 from .utils import is_package_like, parse_package_spec
+from .exceptions import InvalidPackage
+from .requirements import Requirement
 from .compat import basestring
 
 
@@ -19,7 +21,11 @@ class NameVersionRevisionComparable(object):
                 str(self.revision) == str(other.revision)
 
         elif isinstance(other, basestring):
-            spec = parse_package_spec(other)
+            try:
+                spec = parse_package_spec(other)
+            except InvalidPackage:
+                # The dependencies of formulas may be any requirement
+                return Requirement(other).satisfied_by(self)
             if spec['name'] == self.name:
                 if spec.get('version') is not None:
                     if spec['version'] == self.version:
diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 0045885..e6a541f 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -127,7 +127,8 @@ class Requirement(object):
                 obj.get('name') == self.name and \
                 self.satisfied_by_version(obj.get('version'))
         else:
-            return (not hasattr(obj, 'platform') or
+            # The platform of most formulas is None: built for any of them
+            return (not hasattr(obj, 'platform') or obj.platform is None or
                     obj.platform == self.platform) and \
                 hasattr(obj, 'name') and \
                 obj.name == self.name and \
-- 
2.43.0


From 6ef3819a9f33fc44f20ae2e0486e097cb4c59c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 32/37] fix: local files could not be read when their path has
 a # or a ?

---
 ipkg/files/backends/filesystem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipkg/files/backends/filesystem.py b/ipkg/files/backends/filesystem.py
index e113144..61e15d6 100644
--- a/ipkg/files/backends/filesystem.py
+++ b/ipkg/files/backends/filesystem.py
@@ -17,7 +17,9 @@ class LocalFile(BaseFile):
     """
     def __init__(self, *args, **kw):
         super(LocalFile, self).__init__(*args, **kw)
-        filepath = urlparse(self.name).path
+        info = urlparse(self.name)
+        # Characters like # and ? mean nothing in a path
+        filepath = info.path if info.scheme else self.name
         if os.path.isfile(filepath):
             self.__file = open(filepath)
         else:
-- 
2.43.0


From 9a3ecf8224671b87fcbf88b3f2ca5edc85a0c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 33/37] fix: archives whose members begin with ./ could not be
 used

---
 ipkg/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 03783bc..5fd5767 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -212,16 +212,19 @@ def unarchive(fileobj, target):
     tar_extensions = (['tar', 'bz2'], ['tar', 'gz'], ['tar', 'xz'])
     if filename.split('.')[-2:] in tar_extensions:
         archive = tarfile.open(fileobj=fileobj)
-        root_items = set(i.path.split('/')[0] for i in archive)
+        paths = [i.path for i in archive]
 
     elif filename.endswith('.zip'):
         archive = zipfile.ZipFile(fileobj)
-        root_items = set(i.filename.split('/')[0] for i in
-                         archive.filelist)
+        paths = [i.filename for i in archive.filelist]
 
     else:
         raise IpkgException('Unrecognized file type %s' % filename)
 
+    # Many archives are made from their parent directory: ./foo-1.0/...
+    root_items = set(os.path.normpath(p).split('/')[0] for p in paths)
+    root_items.discard('.')
+
     if len(root_items) != 1:
         raise IpkgException('There must be strictly 1 item at '
                             'root of sources file archive')
-- 
2.43.0


From 068ec1e18fbcca51b68be7899c533dda00df8fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 34/37] fix: refusing an invalid requirement could take for
 ever

---
 ipkg/requirements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index e6a541f..0e77136 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -147,7 +147,7 @@ RE_REQUIREMENT = re.compile("""
     \]
 )?
 \s*
-(?P<versions>[A-Za-z0-9_\-,!=\>\<\. ]+)*
+(?P<versions>[A-Za-z0-9_\-,!=\>\<\. ]+)?
 \s*
 $
 """, re.X)
-- 
2.43.0


From c0f3cb917b30ec196fd370ed313955b0b3ee640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 35/37] fix: an invalid dependency of a formula stopped the
 whole batch

---
 ipkg/mixins.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipkg/mixins.py b/ipkg/mixins.py
index 650c49b..cbd18e4 100644
--- a/ipkg/mixins.py
+++ b/ipkg/mixins.py
@@ -3,7 +3,7 @@ import operator
 from pkg_resources import parse_version
 
 from .utils import is_package_like, parse_package_spec
-from .exceptions import InvalidPackage
+from .exceptions import IpkgException, InvalidPackage
 from .requirements import Requirement
 from .compat import basestring
 
@@ -25,7 +25,11 @@ class NameVersionRevisionComparable(object):
                 spec = parse_package_spec(other)
             except InvalidPackage:
                 # The dependencies of formulas may be any requirement
-                return Requirement(other).satisfied_by(self)
+                try:
+                    return Requirement(other).satisfied_by(self)
+                except IpkgException:
+                    # It is no requirement at all
+                    return False
             if spec['name'] == self.name:
                 if spec.get('version') is not None:
                     if spec['version'] == self.version:
-- 
2.43.0


From a8502d90ffc3ec7c57c159244895c48810dcea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 36/37] fix: a formula failing in an unexpected way stopped the
 whole batch

---
 ipkg/build.py        | 6 ++++++
 ipkg/repositories.py | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 80c1caa..9c4de36 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -168,6 +168,12 @@ class Formula(NameVersionRevisionComparable):
         try:
             ipkg_file = self.__build_package(build_dir, package_dir,
                                              repository)
+        except IpkgException:
+            raise
+        except Exception as err:
+            # Anything may go wrong in a formula or in its sources
+            LOGGER.debug('Failed to build %r', self, exc_info=True)
+            raise BuildError('%s: %s' % (err.__class__.__name__, err))
         finally:
             # Cleanup: leave the environment as it was, even if the build
             # failed. Otherwise what this build installed would be missing
diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index cfdc2b5..9817ae8 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -152,7 +152,12 @@ class LocalPackageRepository(PackageRepository):
 
         for formula_cls in formula_repository:
             if formula_cls not in repo_packages:
-                formulas.append(formula_cls(environment, verbose))
+                try:
+                    formula = formula_cls(environment, verbose)
+                except IpkgException as err:
+                    LOGGER.error('Cannot build %s: %s', formula_cls.name, err)
+                else:
+                    formulas.append(formula)
         LOGGER.debug('Formulas: %r', formulas)
 
         while formulas:
-- 
2.43.0


From 98c351a9e27284ac158323772f2a620519d81245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 37/37] fix: a formula which cannot be loaded kept the others
 from being built

---
 ipkg/repositories.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index 9817ae8..65e58da 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -265,8 +265,15 @@ class FormulaRepository(BaseRepository):
             for formula_file in os.listdir(name_dir):
                 if FORMULA_FILE.match(formula_file):
                     formula_filepath = os.path.join(name_dir, formula_file)
-                    formula = Formula.from_file(formula_filepath)
-                    self.meta[formula.name].append(formula)
+                    try:
+                        formula = Formula.from_file(formula_filepath)
+                    except Exception as err:
+                        # The other ones do not depend on it
+                        LOGGER.error('Ignoring formula %s: %s: %s',
+                                     formula_filepath,
+                                     err.__class__.__name__, err)
+                    else:
+                        self.meta[formula.name].append(formula)
 
     def __iter__(self):
         for formula_list in self.meta.values():
-- 
2.43.0

