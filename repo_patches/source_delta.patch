From 794a87a2ec6d478d9b8fbfc0bd31a70297b74a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 01/14] fix: tealish format replaces the file in one step

The in-place rewrite (seek, write, truncate) lost or tore the user's source when
the command was killed, hit a full disk or the machine lost power.
---
 tealish/cli.py   | 17 ++++++++++-------
 tealish/utils.py | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index 12ccefb..55a77d6 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -11,7 +11,7 @@ from tealish.langspec import (
     local_lang_spec,
 )
 from tealish.build import assemble_with_goal, assemble_with_algod
-from tealish.utils import TealishMap
+from tealish.utils import TealishMap, write_file
 
 
 def _build(
@@ -137,18 +137,21 @@ def build(
 
 
 @click.command()
-@click.argument("tealish_file", type=click.File("r+"))
+@click.argument(
+    "tealish_file",
+    type=click.Path(
+        exists=True, dir_okay=False, writable=True, path_type=pathlib.Path
+    ),
+)
 @click.pass_context
-def format(ctx: click.Context, tealish_file: IO) -> None:
+def format(ctx: click.Context, tealish_file: pathlib.Path) -> None:
     """Rewrite .tl file using standard tealish style"""
-    input = tealish_file.read()
+    input = tealish_file.read_text(encoding="utf-8")
     try:
         output = reformat_program(input)
     except ParseError as e:
         raise click.ClickException(str(e))
-    tealish_file.seek(0)
-    tealish_file.write(output)
-    tealish_file.truncate()
+    write_file(tealish_file, output.encode("utf-8"))
 
 
 @click.command()
diff --git a/tealish/utils.py b/tealish/utils.py
index 19d665c..eb7544f 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -1,7 +1,40 @@
+import os
+import secrets
+import stat
 from typing import Dict, List, Tuple, Optional, Union, Any
 from algosdk.source_map import SourceMap
 
 
+def write_file(path: Union[str, "os.PathLike[str]"], data: bytes) -> None:
+    """Replace the contents of a file in one step.
+
+    The data goes to a temporary file in the same directory, is flushed to disk
+    and then renamed over `path`. Whatever happens on the way (a crash, a full
+    disk, Ctrl-C) `path` holds either its previous contents or all of `data`.
+    """
+    path = os.path.realpath(path)
+    tmp_path = os.path.join(
+        os.path.dirname(path), f".tealish-{secrets.token_hex(8)}.tmp"
+    )
+    try:
+        fd = os.open(tmp_path, os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o666)
+        with open(fd, "wb") as f:
+            try:
+                os.chmod(tmp_path, stat.S_IMODE(os.stat(path).st_mode))
+            except FileNotFoundError:
+                pass
+            f.write(data)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_path, path)
+    except BaseException:
+        try:
+            os.unlink(tmp_path)
+        except OSError:
+            pass
+        raise
+
+
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
     n = 1
-- 
2.43.0


From e524d6ffad0cbe570c1c3b992b1733c4aae084fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 02/14] fix: compile and build replace each artefact in one
 step

.teal, .teal.tok and .map.json were truncated and rewritten in place: a reader, a
crash or a full disk could find them empty or partial.
---
 tealish/cli.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index 55a77d6..180ce9c 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -38,8 +38,7 @@ def _build(
             click.echo(f"Compiling {path} to {teal_filename}")
         teal, tealish_map = _compile_program(open(path).read())
         teal_string = "\n".join(teal + [""])
-        with open(teal_filename, "w") as f:
-            f.write("\n".join(teal + [""]))
+        write_file(teal_filename, teal_string.encode("utf-8"))
 
         if assembler:
             tok_filename = output_path / f"{base_filename}.teal.tok"
@@ -70,15 +69,14 @@ def _build(
                 raise click.ClickException("Sandbox is not supported yet.")
             else:
                 raise Exception()
-            with open(tok_filename, "wb") as f:
-                f.write(bytecode)
+            write_file(tok_filename, bytecode)
             # Source Map
             tealish_map.update_from_teal_sourcemap(sourcemap)
             map_filename = output_path / f"{base_filename}.map.json"
             if not quiet:
                 click.echo(f"Writing source map to {map_filename}")
-            with open(map_filename, "w") as f:
-                f.write(json.dumps(tealish_map.as_dict()).replace("],", "],\n"))
+            map_string = json.dumps(tealish_map.as_dict()).replace("],", "],\n")
+            write_file(map_filename, map_string.encode("utf-8"))
 
 
 def _compile_program(source: str) -> Tuple[List[str], TealishMap]:
-- 
2.43.0


From de8f798a16a0246437f6658c16aed4fd13956c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 03/14] fix: the source map stays valid JSON when an error
 message contains "],"

---
 tealish/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index 180ce9c..bff0c33 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -75,7 +75,7 @@ def _build(
             map_filename = output_path / f"{base_filename}.map.json"
             if not quiet:
                 click.echo(f"Writing source map to {map_filename}")
-            map_string = json.dumps(tealish_map.as_dict()).replace("],", "],\n")
+            map_string = json.dumps(tealish_map.as_dict())
             write_file(map_filename, map_string.encode("utf-8"))
 
 
-- 
2.43.0


From abc4a1df99380b88df1f2569ea36808132f9fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 04/14] fix: building a directory that cannot be listed is an
 error

pathlib's glob() swallows the error, so compile/build built nothing and exited 0.
Sources are now also built in sorted order instead of directory order.
---
 tealish/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index bff0c33..c8d97a5 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -22,7 +22,9 @@ def _build(
 ) -> None:
     paths: List[pathlib.Path]
     if path.is_dir():
-        paths = list(path.glob("*.tl"))
+        # Not glob(): it silently skips a directory that can't be read.
+        # Sorted: what gets built before an error is the same on every machine.
+        paths = sorted(p for p in path.iterdir() if p.match("*.tl"))
     else:
         paths = [path]
 
-- 
2.43.0


From 48ba21c950ca4604686c8919bc7406a5dff41834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 05/14] fix: each compilation has its own struct registry

Structs were kept in one module-level dict, so programs compiled later in the
same process (build of a directory, a long-lived server, another thread) could
use, or have replaced, the structs of unrelated programs.
---
 tealish/__init__.py | 19 ++++++++++++-------
 tealish/types.py    | 22 +++++++++++++++++-----
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index e230474..152c5cf 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -3,7 +3,7 @@ from typing import List, Dict, Union, Tuple
 from .base import BaseNode
 from .nodes import Node, Program
 from .utils import TealishMap
-from .types import _structs
+from .types import StructType, use_structs
 
 
 class TealWriter:
@@ -88,6 +88,7 @@ class TealishCompiler:
         self.processed = False
         self.line_nodes = {}
         self.use_inner_txns_macro = None
+        self.structs: Dict[str, StructType] = {}
 
     def consume_line(self) -> str:
         if self.line_no == len(self.source_lines):
@@ -119,13 +120,15 @@ class TealishCompiler:
             self.current_output_line += 1
 
     def parse(self) -> None:
-        node = Program.consume(self, None)
+        with use_structs(self.structs):
+            node = Program.consume(self, None)
         self.nodes.append(node)
 
     def process(self) -> None:
         for node in self.nodes:
             try:
-                node.process()
+                with use_structs(self.structs):
+                    node.process()
             except Exception as e:
                 node = inspect.trace()[-1].frame.f_locals['self']
                 print(node.line_no, node.line)
@@ -137,8 +140,9 @@ class TealishCompiler:
             self.parse()
         if not self.processed:
             self.process()
-        for node in self.nodes:
-            node.write_teal(self.writer)
+        with use_structs(self.structs):
+            for node in self.nodes:
+                node.write_teal(self.writer)
         self.source_map = self.writer.source_map
         self.output = self.writer.output
         return self.writer.output
@@ -148,7 +152,8 @@ class TealishCompiler:
             self.parse()
         if not self.processed:
             self.process()
-        return self.nodes[0].tealish()
+        with use_structs(self.structs):
+            return self.nodes[0].tealish()
 
     def get_map(self) -> TealishMap:
         map = TealishMap()
@@ -157,7 +162,7 @@ class TealishCompiler:
         return map
 
     def get_structs(self):
-        return dict(_structs)
+        return dict(self.structs)
 
 
 def compile_program(source: str) -> Tuple[List[str], TealishMap]:
diff --git a/tealish/types.py b/tealish/types.py
index 8981eb2..f6789c9 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -1,10 +1,22 @@
+from contextlib import contextmanager
+from contextvars import ContextVar
 from enum import Enum
 import re
-from typing import Dict
+from typing import Dict, Iterator
 
 
-# Set of custom defined types
-_structs: Dict[str, "StructType"] = {}
+# Set of custom defined types of the program being compiled. Each compiler has
+# its own: programs must not see each other's types.
+_structs: ContextVar[Dict[str, "StructType"]] = ContextVar("_structs", default={})
+
+
+@contextmanager
+def use_structs(structs: Dict[str, "StructType"]) -> Iterator[None]:
+    token = _structs.set(structs)
+    try:
+        yield
+    finally:
+        _structs.reset(token)
 
 
 class AVMType(str, Enum):
@@ -190,11 +202,11 @@ class ArrayType(BytesType):
 
 
 def define_struct(struct: StructType) -> None:
-    _structs[struct.name] = struct
+    _structs.get()[struct.name] = struct
 
 
 def get_struct(struct_name: str) -> StructType:
-    return _structs[struct_name]
+    return _structs.get()[struct_name]
 
 
 def get_type_instance(type_name):
-- 
2.43.0


From f6cea3d52fe401d3561107a34751e0995956c942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 06/14] fix: langspec fetch and update replace langspec.json in
 one step

A crash, an I/O error or a full disk while it was rewritten in place left a
partial file, with which no tealish command starts any more.
---
 tealish/cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index c8d97a5..ae22602 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -192,8 +192,7 @@ def langspec_fetch(ctx: click.Context, url_or_branch: str) -> None:
     Can be a URL or branch name of go-algorand
     """
     new_langspec = fetch_langspec(url_or_branch)
-    with open("langspec.json", "w") as f:
-        json.dump(new_langspec.as_dict(), f)
+    write_file("langspec.json", json.dumps(new_langspec.as_dict()).encode("utf-8"))
 
     new_ops = new_langspec.new_ops(packaged_lang_spec)
     if new_ops:
-- 
2.43.0


From 4a78193c8727e1cb3ad2c2d27ba31afe5b20f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 07/14] fix: build --goal assembles into a private temporary
 directory

All invocations shared /tmp/out.tok: concurrent builds picked up each other's
bytecode, a failed one could reuse a stale file, and the file was left behind.
---
 tealish/build.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/tealish/build.py b/tealish/build.py
index a28d429..0c2e08f 100644
--- a/tealish/build.py
+++ b/tealish/build.py
@@ -1,24 +1,27 @@
 from base64 import b64decode
 from typing import Tuple
 import json
+import os
 import subprocess
+import tempfile
 from algosdk.v2client.algod import AlgodClient
 from algosdk.source_map import SourceMap
 
 
 def assemble_with_goal(teal: str) -> Tuple[bytes, SourceMap]:
-    tmp_out_filename = "/tmp/out.tok"
-    try:
-        subprocess.check_output(
-            ["goal", "clerk", "compile", "-", "--map", "-o", tmp_out_filename],
-            input=teal.encode(),
-        )
-    except FileNotFoundError:
-        raise Exception("goal not found in path")
-    except subprocess.CalledProcessError as e:
-        raise Exception(e.output)
-    bytecode = open(tmp_out_filename, "rb").read()
-    algod_sourcemap = json.load(open(tmp_out_filename + ".map"))
+    with tempfile.TemporaryDirectory() as tmp_dir:
+        tmp_out_filename = os.path.join(tmp_dir, "out.tok")
+        try:
+            subprocess.check_output(
+                ["goal", "clerk", "compile", "-", "--map", "-o", tmp_out_filename],
+                input=teal.encode(),
+            )
+        except FileNotFoundError:
+            raise Exception("goal not found in path")
+        except subprocess.CalledProcessError as e:
+            raise Exception(e.output)
+        bytecode = open(tmp_out_filename, "rb").read()
+        algod_sourcemap = json.load(open(tmp_out_filename + ".map"))
     return bytecode, SourceMap(algod_sourcemap)
 
 
-- 
2.43.0


From 405ceb296a3d5bc80d50d816bb5aafe4156f4cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 08/14] fix: fetching a langspec times out when the server
 stops responding

---
 tealish/langspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/langspec.py b/tealish/langspec.py
index 45c0c3c..3691dee 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -302,7 +302,7 @@ def fetch_langspec(url: str) -> LangSpec:
         )
     if "github.com" in url and "blob" in url:
         url = url.replace("blob", "raw")
-    r = requests.get(url)
+    r = requests.get(url, timeout=30)
     r.raise_for_status()
     langspec_dict = r.json()
     return LangSpec(langspec_dict)
-- 
2.43.0


From 2463ac1dfa13b1e35adb8c7c72f984e4919c02cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 09/14] fix: expressions can be parsed from several threads

---
 tealish/tx_expressions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tealish/tx_expressions.py b/tealish/tx_expressions.py
index edfc4a5..1b8edb9 100644
--- a/tealish/tx_expressions.py
+++ b/tealish/tx_expressions.py
@@ -1,4 +1,5 @@
 import importlib.resources
+import threading
 import tealish
 from textx.metamodel import metamodel_from_file
 from .expression_nodes import class_provider
@@ -19,6 +20,12 @@ tealish_mm = metamodel_from_file(
 )
 
 
+# textX replaces attribute access of our classes while it builds a model, so only
+# one thread can be in there at a time.
+_parse_lock = threading.Lock()
+
+
 def parse_expression(source: str) -> "Node":
-    node = tealish_mm.model_from_str(source)
+    with _parse_lock:
+        node = tealish_mm.model_from_str(source)
     return node
-- 
2.43.0


From af73aad31781994f2d23db94289d216c96e23e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 10/14] fix: sources are UTF-8 whatever the locale

With another locale encoding, string constants were compiled to other bytes or
the source could not be read at all.
---
 tealish/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index ae22602..280c798 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -38,7 +38,7 @@ def _build(
         teal_filename = output_path / f"{base_filename}.teal"
         if not quiet:
             click.echo(f"Compiling {path} to {teal_filename}")
-        teal, tealish_map = _compile_program(open(path).read())
+        teal, tealish_map = _compile_program(open(path, encoding="utf-8").read())
         teal_string = "\n".join(teal + [""])
         write_file(teal_filename, teal_string.encode("utf-8"))
 
@@ -155,7 +155,7 @@ def format(ctx: click.Context, tealish_file: pathlib.Path) -> None:
 
 
 @click.command()
-@click.argument("tealish_file", type=click.File("r"))
+@click.argument("tealish_file", type=click.File("r", encoding="utf-8"))
 @click.pass_context
 def inspect(ctx: click.Context, tealish_file: IO) -> None:
     """Inspect a tealish program"""
@@ -245,7 +245,7 @@ def stats(ctx: click.Context, path: pathlib.Path) -> None:
         paths = [path]
     for path in paths:
         # click.echo(f"Compiling {path} to {teal_filename}")
-        tealish = open(path).readlines()
+        tealish = open(path, encoding="utf-8").readlines()
         n = 0
         for line in tealish:
             line = line.strip()
-- 
2.43.0


From a5af35fd60b03843542d433cd7a30e067ea90272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 11/14] fix: a compiler object can be used again

compile() twice returned the program twice, and a retry after a failed or
interrupted parse or process carried on from the middle of the source.
---
 tealish/__init__.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 152c5cf..5c3d186 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -120,12 +120,29 @@ class TealishCompiler:
             self.current_output_line += 1
 
     def parse(self) -> None:
+        # Always starts afresh: an earlier parse, maybe of half the source, must
+        # leave no trace.
+        self.nodes = []
+        self.processed = False
+        self.line_no = 0
+        self.conditional_count = 0
+        self.error_messages = {}
+        self.max_slot = 0
+        self.line_nodes = {}
+        self.structs = {}
         with use_structs(self.structs):
             node = Program.consume(self, None)
-        self.nodes.append(node)
+        self.nodes = [node]
 
     def process(self) -> None:
-        for node in self.nodes:
+        if self.processed and self.nodes:
+            return
+        if not self.nodes:
+            self.parse()
+        # Nodes can be processed only once. If this fails half-way the next
+        # attempt has to parse the source again.
+        nodes, self.nodes = self.nodes, []
+        for node in nodes:
             try:
                 with use_structs(self.structs):
                     node.process()
@@ -134,15 +151,18 @@ class TealishCompiler:
                 print(node.line_no, node.line)
                 raise e
         self.processed = True
+        self.nodes = nodes
 
     def compile(self) -> List[str]:
         if not self.nodes:
             self.parse()
         if not self.processed:
             self.process()
+        writer = TealWriter()
         with use_structs(self.structs):
             for node in self.nodes:
-                node.write_teal(self.writer)
+                node.write_teal(writer)
+        self.writer = writer
         self.source_map = self.writer.source_map
         self.output = self.writer.output
         return self.writer.output
-- 
2.43.0


From 841041a0969947fb10398363723a3f9b8fc771bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 12/14] fix: writing an inner transaction no longer disables
 the inner group macro

write_teal() switched use_inner_txns_macro off on the compiler, so programs with
an inner_group failed to compile or came out different the second time.
---
 tealish/nodes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index fae3d51..b56ae09 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1043,7 +1043,6 @@ class InnerTxn(InlineStatement):
                 node.expression.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
-        self.compiler.use_inner_txns_macro = False
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         if self.compiler.use_inner_txns_macro:
             writer.write(self, "callsub _itxn_begin")
-- 
2.43.0


From 6e12a3142d31828693ed3482965ce120874a4bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 13/14] fix: read langspec.json as UTF-8 whatever the locale

A local langspec with anything but ASCII in it (go-algorand writes its
descriptions as plain UTF-8) made every command fail at start-up on a
machine with another preferred encoding.
---
 tealish/langspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/langspec.py b/tealish/langspec.py
index 3691dee..44f3bf9 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -263,7 +263,7 @@ packaged_lang_spec.is_packaged = True
 
 local_lang_spec: Optional[LangSpec] = None
 if os.path.exists("langspec.json"):
-    local_lang_spec = LangSpec(json.load(open("langspec.json")))
+    local_lang_spec = LangSpec(json.load(open("langspec.json", encoding="utf-8")))
 
 
 def get_active_langspec() -> LangSpec:
-- 
2.43.0


From a8c39f3e2d483d12e76dec4d9d59c4f23f140682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:52 +0000
Subject: [PATCH 14/14] fix: stats fails when a directory cannot be read

glob() skips a directory whatever the error, so that an I/O error made
stats print an incomplete list and succeed.
---
 tealish/cli.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index 280c798..d0159f8 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -229,6 +229,15 @@ def langspec_diff(url: str) -> None:
         click.echo(f"{sig}")
 
 
+def _list_dir(path: pathlib.Path) -> List[pathlib.Path]:
+    # Not glob(): it silently skips a directory whatever the error, so that the
+    # stats would be incomplete.
+    try:
+        return list(path.iterdir()) if path.is_dir() else []
+    except (FileNotFoundError, NotADirectoryError, PermissionError):
+        return []
+
+
 @click.command()
 @click.argument("path", type=click.Path(exists=True, path_type=pathlib.Path))
 @click.pass_context
@@ -236,11 +245,11 @@ def stats(ctx: click.Context, path: pathlib.Path) -> None:
     """Stats for a .tl file"""
     paths = []
     if path.is_dir():
-        paths = (
-            list(path.glob("*.tl"))
-            + list(path.glob("*/*.tl"))
-            + list(path.glob("*/build/*.teal"))
-        )
+        entries = _list_dir(path)
+        paths = [p for p in entries if p.match("*.tl")]
+        for pattern, subdir in (("*.tl", ""), ("*.teal", "build")):
+            for entry in entries:
+                paths += [p for p in _list_dir(entry / subdir) if p.match(pattern)]
     else:
         paths = [path]
     for path in paths:
-- 
2.43.0

