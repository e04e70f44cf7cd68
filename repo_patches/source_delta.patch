From c4ef52a541b93784df9f47b7c5f4dd18ba3767a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 01/26] fix: save the optimal balancer database atomically

The database was truncated in place and then rewritten, so an interrupt, crash
or full disk during a save lost every previously computed result.
---
 factorio_sat/calculate_optimal.py |  4 ++--
 factorio_sat/util.py              | 21 +++++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index fbd63b3..37aa7d8 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -13,6 +13,7 @@ from . import belt_balancer
 from . import blueprint
 from . import optimisations
 from .network import deduplicate_network, get_input_output_colours, open_network
+from .util import write_file_atomic
 
 MAXIMUM_UNDERGROUND_LENGTHS = {
     'normal': 4,
@@ -283,8 +284,7 @@ def main():
         data = {}
         for store in stores:
             data[store.network_name] = store.to_json()
-        with open(result_file, 'w') as f:
-            json.dump(data, f)
+        write_file_atomic(result_file, json.dumps(data))
 
     if args.mode == 'query':
         if args.export_blueprints:
diff --git a/factorio_sat/util.py b/factorio_sat/util.py
index be0253d..b602747 100644
--- a/factorio_sat/util.py
+++ b/factorio_sat/util.py
@@ -1,5 +1,7 @@
 import collections
 import math
+import os
+import shutil
 import traceback
 from os import path
 from typing import Callable, Iterator, List, Optional
@@ -17,6 +19,24 @@ def get_stack():  # Doesn't include caller
     return tuple(result)
 
 
+def write_file_atomic(filename: str, contents: str):
+    """Replaces the contents of a file in a single step, a crash or error part way through leaves the old contents in place"""
+    filename = path.realpath(filename)
+    temp_filename = f'{filename}.{os.getpid()}.tmp'
+    try:
+        with open(temp_filename, 'w') as f:
+            f.write(contents)
+            f.flush()
+            os.fsync(f.fileno())
+        if path.exists(filename):
+            shutil.copymode(filename, temp_filename)
+        os.replace(temp_filename, filename)
+    except BaseException:
+        if path.exists(temp_filename):
+            os.remove(temp_filename)
+        raise
+
+
 class StackTracingList(list):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
@@ -405,4 +425,5 @@ __all__ = [
     'set_number',
     'set_numbers',
     'set_numbers_equal',
+    'write_file_atomic',
 ]
-- 
2.43.0


From 0f1fecf0f251cd62208eec84e31ddbc2db4d2daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 02/26] fix: keep database entries of networks that are not in
 the networks directory

Saving dropped every entry without a matching network file.
---
 factorio_sat/calculate_optimal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index 37aa7d8..f8e34dc 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -278,10 +278,9 @@ def main():
                 continue
             store.from_json(item)
     except FileNotFoundError:
-        pass
+        data = {}
 
     def save_progress():
-        data = {}
         for store in stores:
             data[store.network_name] = store.to_json()
         write_file_atomic(result_file, json.dumps(data))
-- 
2.43.0


From 58e6fc83a49f29207099e26d33762b0bcc7e8f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 03/26] fix: write the crosstable atomically

The existing file was truncated before being rewritten, so a crash or error while
exporting lost the hand written preamble that the export is meant to keep.
---
 factorio_sat/calculate_optimal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index f8e34dc..f49219e 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -1,6 +1,7 @@
 import argparse
 import asyncio
 import concurrent.futures
+import io
 import json
 import math
 import os
@@ -197,7 +198,7 @@ def export_crosstable(stores: List[NetworkSolutionStore], crosstable_filename: s
     except FileNotFoundError:
         pass
 
-    with open(crosstable_filename, 'w') as f:
+    with io.StringIO() as f:
         f.write(preamble)
         f.write('# Balancers\n')
 
@@ -230,6 +231,8 @@ def export_crosstable(stores: List[NetworkSolutionStore], crosstable_filename: s
                 f.write('\n')
             f.write('\n')
 
+        write_file_atomic(crosstable_filename, f.getvalue())
+
 
 def main():
     base_path = 'networks'
-- 
2.43.0


From fa80c4596b3ca7231bf1730b61f7393830e9d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 04/26] fix: query --export-blueprints crashed on every
 solution

make_blueprint expects a TransportBeltLevel, it was given the name of the level.
---
 factorio_sat/calculate_optimal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index f49219e..70d0761 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -296,7 +296,7 @@ def main():
                 for i, row in enumerate(tiles):
                     for j, entry in enumerate(row):
                         tiles[i, j] = blueprint.read_tile(entry)
-                return blueprint.encode_blueprint(blueprint.make_blueprint(tiles, label, get_belt_level(args.underground_length)))
+                return blueprint.encode_blueprint(blueprint.make_blueprint(tiles, label, blueprint.TransportBeltLevel[get_belt_level(args.underground_length).upper()]))
         else:
             def encode_solution(solution, _):
                 return json.dumps(solution)
-- 
2.43.0


From b0ad3172a90f659c34b216fdecff2f56599408e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 05/26] fix: reject truncated models from command solvers

A solver that died while writing its model had the partial model accepted, a
literal torn in two is even read as a different variable.
---
 factorio_sat/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index e7997a5..0ba2b5e 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -63,7 +63,7 @@ def run_command_solver(cmd: str, clauses: ClauseList) -> Optional[List[LiteralTy
         while True:
             line = result.readline()
             if len(line) == 0:
-                break
+                raise RuntimeError('Solver process crashed before returning a complete solution')
             if line.startswith('c'):
                 print(line, file=sys.stderr, end='')
                 continue
-- 
2.43.0


From 457d6c8f8c65c3d7c589957c35a9409d9dd23306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 06/26] fix: an interrupted solver is not an unsatisfiable
 answer

Solvers return None when they are terminated before reaching an answer, this was
reported (and saved by calculate_optimal) as proof that there is no solution.
---
 factorio_sat/template.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index 0ba2b5e..0399735 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -409,7 +409,10 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 s = Solver(name=solver, bootstrap_with=self.clauses)
 
             with s:
-                if s.solve():
+                satisfiable = s.solve()
+                if satisfiable is None:
+                    raise RuntimeError('Solver was interrupted')
+                if satisfiable:
                     return self.parse_solution(s.get_model())
                 else:
                     return None
@@ -428,7 +431,12 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 s = Solver(name=solver, bootstrap_with=self.clauses)
 
             with s:
-                while s.solve():
+                while True:
+                    satisfiable = s.solve()
+                    if satisfiable is None:
+                        raise RuntimeError('Solver was interrupted')
+                    if not satisfiable:
+                        break
                     solution = s.get_model()
                     yield self.parse_solution(solution)
 
-- 
2.43.0


From 42a06c536e5d85d94f6f082bbe8275f93f0e440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 07/26] fix: reject setting callbacks on a closed IPASIR solver

The native library was called with a null solver.
---
 factorio_sat/ipasir.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/factorio_sat/ipasir.py b/factorio_sat/ipasir.py
index 361eb76..c73c05a 100644
--- a/factorio_sat/ipasir.py
+++ b/factorio_sat/ipasir.py
@@ -71,6 +71,8 @@ class IPASIRSolver:
         self.lib.ipasir_add(self.solver_p, 0)
 
     def set_learn(self, callback: Callable[[ClauseType], None], max_clause_size: int = 2):
+        self.check_closed()
+
         callback_type = self.lib.ipasir_set_learn.argtypes[-1]
         if callback is None:
             raw_callback = callback_type(0)
@@ -91,6 +93,8 @@ class IPASIRSolver:
         self._learn_callback = raw_callback
 
     def set_terminate(self, callback: Callable[[], bool]):
+        self.check_closed()
+
         callback_type = self.lib.ipasir_set_terminate.argtypes[-1]
         if callback is None:
             raw_callback = callback_type(0)
-- 
2.43.0


From 50c041ab30e83e03db862bd4dfbceffb75201271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 08/26] fix: make_block ignored --underground-length without
 --single-loop

---
 factorio_sat/make_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 243a454..1c0cff9 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -86,7 +86,7 @@ def main():
     if args.single_loop:
         grid = solver.Grid(args.width, args.height, args.width * args.height, args.underground_length, edge_mode=edge_mode)
     else:
-        grid = solver.Grid(args.width, args.height, 1, edge_mode=edge_mode)
+        grid = solver.Grid(args.width, args.height, 1, args.underground_length, edge_mode=edge_mode)
 
     grid.prevent_intersection()
     grid.prevent_bad_undergrounding()
-- 
2.43.0


From 9cb50c30682c901a78c3b96c016e95089900ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 09/26] fix: blueprint, rotate and stringifier failed at the
 end of their input

Reaching the end of a complete stream is not an error, it raised EOFError.
---
 factorio_sat/blueprint.py   |  9 +++++----
 factorio_sat/rotate.py      |  5 +++--
 factorio_sat/stringifier.py | 19 +++++++++++--------
 factorio_sat/util.py        | 10 ++++++++++
 4 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index 649d81e..1ddc367 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -12,6 +12,7 @@ import numpy as np
 
 from .direction import Direction
 from .tile import AssemblingMachine, BaseTile, Belt, BeltConnectedTile, EmptyTile, FillerTile, Inserter, Splitter, UndergroundBelt
+from .util import read_input_lines
 
 
 class TransportBeltLevel(enum.Enum):
@@ -284,14 +285,14 @@ def main():
     args = parser.parse_args()
 
     if args.mode == 'encode':
-        while True:
-            tiles = np.array(json.loads(input()))
+        for line in read_input_lines():
+            tiles = np.array(json.loads(line))
             tiles = np.vectorize(read_tile)(tiles)
             print(encode_blueprint(make_blueprint(tiles, args.label, TransportBeltLevel[args.level.upper()])))
 
     elif args.mode == 'decode':
-        while True:
-            decoded = decode_blueprint(input())
+        for line in read_input_lines():
+            decoded = decode_blueprint(line)
             tiles = np.vectorize(write_tile)(import_blueprint(decoded))
             print(json.dumps(tiles.tolist()))
     else:
diff --git a/factorio_sat/rotate.py b/factorio_sat/rotate.py
index cde9d87..5445806 100644
--- a/factorio_sat/rotate.py
+++ b/factorio_sat/rotate.py
@@ -6,6 +6,7 @@ from typing import Callable
 import numpy as np
 
 from .tile import BaseTile, TransformableTile
+from .util import read_input_lines
 
 
 class Operation(Enum):
@@ -27,8 +28,8 @@ def main():
     args = parser.parse_args()
     operation = Operation[args.operation.upper()]
 
-    while True:
-        solution = np.array(json.loads(input()))
+    for line in read_input_lines():
+        solution = np.array(json.loads(line))
         solution = operation.grid(solution)
         for cell in solution.flat:
             tile = BaseTile.read(cell['tile'])
diff --git a/factorio_sat/stringifier.py b/factorio_sat/stringifier.py
index f6fb82e..e0251eb 100644
--- a/factorio_sat/stringifier.py
+++ b/factorio_sat/stringifier.py
@@ -7,6 +7,7 @@ import numpy as np
 from .blueprint import read_tile, write_tile
 from .direction import Direction
 from .tile import Belt, EmptyTile, FillerTile, Splitter, UndergroundBelt
+from .util import read_input_lines
 
 
 def raw_print(data):
@@ -134,19 +135,21 @@ def main():
     args = parser.parse_args()
 
     if args.mode == 'encode':
-        while True:
-            tiles = np.array(json.loads(input()))
+        for line in read_input_lines():
+            tiles = np.array(json.loads(line))
             tiles = np.vectorize(read_tile)(tiles)
             print(encode(tiles))
     else:
-        while True:
-            lines = []
-            while True:
-                lines.append(input().strip())
-                if lines[-1].endswith(END_STOP):
-                    break
+        lines = []
+        for line in read_input_lines():
+            lines.append(line.strip())
+            if not lines[-1].endswith(END_STOP):
+                continue
             grid = np.vectorize(write_tile)(decode(lines))
             print(json.dumps(grid.tolist()))
+            lines = []
+        if len(lines) != 0:
+            raise RuntimeError('Input ended in the middle of a grid')
 
 
 if __name__ == '__main__':
diff --git a/factorio_sat/util.py b/factorio_sat/util.py
index b602747..9fa5469 100644
--- a/factorio_sat/util.py
+++ b/factorio_sat/util.py
@@ -19,6 +19,15 @@ def get_stack():  # Doesn't include caller
     return tuple(result)
 
 
+def read_input_lines() -> Iterator[str]:
+    while True:
+        try:
+            line = input()
+        except EOFError:
+            break
+        yield line
+
+
 def write_file_atomic(filename: str, contents: str):
     """Replaces the contents of a file in a single step, a crash or error part way through leaves the old contents in place"""
     filename = path.realpath(filename)
@@ -416,6 +425,7 @@ __all__ = [
     'is_power_of_two',
     'literals_different',
     'literals_same',
+    'read_input_lines',
     'read_number',
     'set_all_false',
     'set_all_true',
-- 
2.43.0


From be99c7fcca781d1b7ace6e30222de15cea81e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 10/26] fix: blueprint decode failed on blueprints without
 entities

Encoding a grid of empty tiles gives such a blueprint.
---
 factorio_sat/blueprint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index 1ddc367..5a76ced 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -287,13 +287,13 @@ def main():
     if args.mode == 'encode':
         for line in read_input_lines():
             tiles = np.array(json.loads(line))
-            tiles = np.vectorize(read_tile)(tiles)
+            tiles = np.vectorize(read_tile, otypes=[object])(tiles)
             print(encode_blueprint(make_blueprint(tiles, args.label, TransportBeltLevel[args.level.upper()])))
 
     elif args.mode == 'decode':
         for line in read_input_lines():
             decoded = decode_blueprint(line)
-            tiles = np.vectorize(write_tile)(import_blueprint(decoded))
+            tiles = np.vectorize(write_tile, otypes=[object])(import_blueprint(decoded))
             print(json.dumps(tiles.tolist()))
     else:
         assert False
-- 
2.43.0


From c207a3a442018b53297cfed28e3c939cb5192267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:14 +0000
Subject: [PATCH 11/26] fix: start the crosstable on its own line

With a preamble that did not end in a newline the heading was appended to its last
line, so the next export did not find it and kept the old tables as preamble.
---
 factorio_sat/calculate_optimal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index 70d0761..93ae1fe 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -198,6 +198,9 @@ def export_crosstable(stores: List[NetworkSolutionStore], crosstable_filename: s
     except FileNotFoundError:
         pass
 
+    if len(preamble) != 0 and not preamble.endswith('\n'):
+        preamble += '\n'
+
     with io.StringIO() as f:
         f.write(preamble)
         f.write('# Balancers\n')
-- 
2.43.0


From ee10b7699a377ddb5551f289165864c96712082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:29 +0000
Subject: [PATCH 12/26] fix: make_block --no-parallel failed on every size

---
 factorio_sat/make_block.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 1c0cff9..196ced5 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -56,10 +56,10 @@ def prevent_parallel(grid: solver.Grid):
                 if tile_b is None:
                     continue
 
-                grid.clauses.append([-tile_a.underground[direction + 0], -tile_b.underground[direction + 0]])
-                grid.clauses.append([-tile_a.underground[direction + 2], -tile_b.underground[direction + 0]])
-                grid.clauses.append([-tile_a.underground[direction + 0], -tile_b.underground[direction + 2]])
-                grid.clauses.append([-tile_a.underground[direction + 2], -tile_b.underground[direction + 2]])
+                grid.clauses.append([-tile_a.underground[direction], -tile_b.underground[direction]])
+                grid.clauses.append([-tile_a.underground[direction.reverse], -tile_b.underground[direction]])
+                grid.clauses.append([-tile_a.underground[direction], -tile_b.underground[direction.reverse]])
+                grid.clauses.append([-tile_a.underground[direction.reverse], -tile_b.underground[direction.reverse]])
 
 
 def main():
-- 
2.43.0


From c720d175f871fbd5c6ccc3ff80164e22e5752f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:04 +0000
Subject: [PATCH 13/26] fix: balancer inputs and outputs were never placed at
 the last offset

With n inputs on a side of n + k tiles only k of the k + 1 positions were
considered, so requests with solutions were reported as impossible (for
example any --180 balancer whose height is inputs + outputs).
---
 factorio_sat/belt_balancer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index 474afcc..bf06dcd 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -44,7 +44,7 @@ def setup_balancer_ends_with_offsets(grid, network, start_offset: int, end_offse
 
 def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: int, count: int, rest_empty: bool = True):
     assert count <= len(tiles)
-    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count)]
+    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count + 1)] if count < len(tiles) else []
 
     if len(offsets) == 0:
         for tile in tiles:
@@ -66,7 +66,7 @@ def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: i
 
 def setup_balancer_output(grid: Grid, tiles: Sequence[TileTemplate], direction: int, count: int, rest_empty: bool = True):
     assert count <= len(tiles)
-    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count)]
+    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count + 1)] if count < len(tiles) else []
 
     if len(offsets) == 0:
         for tile in tiles:
-- 
2.43.0


From 9d44f22b7e5eb90ce7cd90ab3415e58664114743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:11 +0000
Subject: [PATCH 14/26] fix: --use-ends and --180 required belts where they
 only allow them

The tiles next to the inputs had to be belts, although the tiles next to the
outputs, and the documentation, allow anything there.
---
 factorio_sat/belt_balancer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index bf06dcd..d830afe 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -59,7 +59,7 @@ def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: i
                 elif rest_empty:
                     consequences += set_all_false(tile.all_direction)
                 else:
-                    consequences += [[-tile.input_direction[direction]], [tile.is_belt]]
+                    consequences += [[-tile.input_direction[direction]]]
             grid.clauses += implies([literal], consequences)
     return offsets
 
-- 
2.43.0


From 26a2dd03bc5a848fc6c58c5dd74f5ff3bfd4c1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:39 +0000
Subject: [PATCH 15/26] fix: make_block --tile --single-loop left out loops
 through the edge of the block

A loop that enters the first tile through the wrapped edge was rejected.
---
 factorio_sat/make_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 196ced5..a33aadc 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -22,7 +22,7 @@ def ensure_loop_length(grid: solver.Grid):
             for direction in Direction:
                 dx, dy = direction.vec
                 tile_b = grid.get_tile_instance_offset(x, y, dx, dy)
-                x1, y1 = x + dx, y + dy
+                x1, y1 = (x + dx) % grid.width, (y + dy) % grid.height
 
                 if tile_b is None:
                     continue
-- 
2.43.0


From a1e7c3304b9ebc0cc9b695028a7a360796c32265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:18 +0000
Subject: [PATCH 16/26] fix: blueprint decode failed on belts that face each
 other

---
 factorio_sat/blueprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index 5a76ced..80dac4e 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -128,7 +128,7 @@ def resolve_belt_input_directions(tiles):
             if not isinstance(neighbour, BeltConnectedTile):
                 continue
 
-            if neighbour.output_direction != direction:
+            if neighbour.output_direction != direction or direction == tile.output_direction.reverse:
                 continue
 
             if input_direction is None:
-- 
2.43.0


From b6c2c11f6da6e6aeb45b68d6500ebc1347fc5a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:52 +0000
Subject: [PATCH 17/26] fix: network parse failed on splitters next to empty
 tiles

---
 factorio_sat/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index b8da5cf..1d55ab9 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -620,7 +620,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
                     continue
 
                 offset_tile = tiles[pos]
-                if offset_tile is None:
+                if isinstance(offset_tile, (EmptyTile, FillerTile)):
                     node[-1].append(None)
                     continue
 
-- 
2.43.0


From c950fbdd83a57b259f3c07777c616d0983e25675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:52 +0000
Subject: [PATCH 18/26] fix: network parse failed on undergrounds in the first
 row

---
 factorio_sat/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index 1d55ab9..c840118 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -549,7 +549,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
                     dx, dy = tile.direction.vec
                     while True:
                         pos = pos[0] - dx, pos[1] - dy
-                        assert pos[0] >= 0 and pos[0] < tiles.shape[0] and pos[1] >= 1 and pos[1] < tiles.shape[1]
+                        assert pos[0] >= 0 and pos[0] < tiles.shape[0] and pos[1] >= 0 and pos[1] < tiles.shape[1]
 
                         current_tile = tiles[pos]
                         assert current_tile != UndergroundBelt(tile.direction, False)
-- 
2.43.0


From 1e63c08bd577144d8d744d3440afc7edd5ef8584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:29 +0000
Subject: [PATCH 19/26] fix: layouts joined splitter halves that the network
 leaves unconnected

---
 factorio_sat/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/factorio_sat/solver.py b/factorio_sat/solver.py
index e686613..dbcb685 100644
--- a/factorio_sat/solver.py
+++ b/factorio_sat/solver.py
@@ -495,6 +495,10 @@ class Grid(FactorioGrid[TileTemplate, Dict[str, Any]]):
                     [-tile_b.input_direction[direction.reverse], -tile_b.output_direction[direction.prev]],
                 ])
 
+                # Splitters in a row are always connected
+                self.clauses += implies([tile_a.input_direction[direction], tile_a.is_splitter, tile_b.output_direction[direction], tile_b.is_splitter],
+                                        [[tile_a.output_direction[direction]]])
+
     def itersolve(self, important_variables=set(), solver='g3', ignore_colour=False):
         important_variables = set(important_variables)
         for x in range(self.width):
-- 
2.43.0


From b5d5c48fbcc77535afd643bfc56f2c4edb5c92d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:46 +0000
Subject: [PATCH 20/26] fix: models of solver libraries left out variables that
 no clause uses

---
 factorio_sat/ipasir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/ipasir.py b/factorio_sat/ipasir.py
index c73c05a..88aee56 100644
--- a/factorio_sat/ipasir.py
+++ b/factorio_sat/ipasir.py
@@ -138,8 +138,8 @@ class IPASIRSolver:
         self.check_closed()
 
         model = []
-        for var in self.variables:
-            value = self.lib.ipasir_val(self.solver_p, var)
+        for var in range(1, max(self.variables, default=0) + 1):
+            value = self.lib.ipasir_val(self.solver_p, var) if var in self.variables else 0
             if value == 0:
                 value = var
             model.append(value)
-- 
2.43.0


From 38377d1eecbaa151a73792089d4786c6c814d60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:39 +0000
Subject: [PATCH 21/26] fix: render ignored failures of ffmpeg

---
 factorio_sat/render.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/render.py b/factorio_sat/render.py
index 34fdd2e..a7c9708 100644
--- a/factorio_sat/render.py
+++ b/factorio_sat/render.py
@@ -493,7 +493,8 @@ def export_video(frames, filename):
     for frame in frames.astype(np.uint8):
         process.stdin.write(frame.tobytes())
     process.stdin.close()
-    process.wait()
+    if process.wait() != 0:
+        raise RuntimeError('ffmpeg failed to export: ' + filename)
 
 def main():
     parser = argparse.ArgumentParser(description='Renders a grid of tiles from standard input')
-- 
2.43.0


From 1a8b92127f88f2ff1784e74215ef30b6125aaca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:21 +0000
Subject: [PATCH 22/26] fix: fetch_assets could not read recipes with current
 luaparser versions

Positional table fields have no key and strings are bytes there, so that every
recipe file ended in an assertion failure.
---
 factorio_sat/assets/fetch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/assets/fetch.py b/factorio_sat/assets/fetch.py
index 5220546..a3d0d9f 100644
--- a/factorio_sat/assets/fetch.py
+++ b/factorio_sat/assets/fetch.py
@@ -65,8 +65,12 @@ def decode_lua_data(text):
     def recurse(node):
         if isinstance(node, ast.Table):
             result = {}
+            position = 0
             for field in node.fields:
-                if isinstance(field.key, ast.Number):
+                if field.key is None:  # Newer versions of luaparser do not number positional fields
+                    position += 1
+                    key = position
+                elif isinstance(field.key, ast.Number):
                     key = field.key.n
                 elif isinstance(field.key, ast.Name):
                     key = field.key.id
@@ -78,7 +82,7 @@ def decode_lua_data(text):
             except KeyError:
                 return result
         elif isinstance(node, ast.String):
-            return node.s
+            return node.s.decode() if isinstance(node.s, bytes) else node.s
         elif isinstance(node, ast.FalseExpr):
             return False
         elif isinstance(node, ast.TrueExpr):
-- 
2.43.0


From 82abe771199b48fe8ae74fe7584a1177f3c203c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:21 +0000
Subject: [PATCH 23/26] fix: crafting time of recipes that only have a normal
 variant

The expensive variant falls back to the normal one, but did not take its time.
---
 factorio_sat/assets/fetch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/assets/fetch.py b/factorio_sat/assets/fetch.py
index a3d0d9f..b0b5c56 100644
--- a/factorio_sat/assets/fetch.py
+++ b/factorio_sat/assets/fetch.py
@@ -105,11 +105,11 @@ def get_recipes_for_variant(data, variant):
         if variant in entry:
             entry = entry[variant]
 
-        time = entry.get('energy_required', time)
-
         if 'ingredients' not in entry and ('result' not in entry or 'results' not in entry):
             entry = entry['normal']
 
+        time = entry.get('energy_required', time)
+
         ingredients = []
         for item in entry['ingredients']:
             if isinstance(item, list):
-- 
2.43.0


From e6e426fb60ac73b0368782949002a6915044e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:03 +0000
Subject: [PATCH 24/26] fix: render could not draw inserters

---
 factorio_sat/render.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/render.py b/factorio_sat/render.py
index a7c9708..a2c95c9 100644
--- a/factorio_sat/render.py
+++ b/factorio_sat/render.py
@@ -153,7 +153,7 @@ def render_tile(tile: BaseTile, animation: int, layer: RenderLayer):
         if layer == RenderLayer.BOTTOM:
             glPushMatrix()
             glTranslatef(-(8 + 1.5)/32, (8 - (7.5 - 1))/32, 0)
-            tilemaps.INSERTER_PLATFORM[tile.type].render((1 - tile.direction) % 4, 0)
+            tilemaps.INSERTER_PLATFORM[tile.type].render((1 - tile.direction.value) % 4, 0)
             glPopMatrix()
         elif layer == RenderLayer.TOP:
             # Good enough
@@ -176,7 +176,7 @@ def render_tile(tile: BaseTile, animation: int, layer: RenderLayer):
             if t < 0:
                 interior_angle *= -1
 
-            base_angle = 90 * (2 - tile.direction) + interior_angle
+            base_angle = 90 * (2 - tile.direction.value) + interior_angle
 
             glPushMatrix()
 
-- 
2.43.0


From c34e90cdd9dd37aafe854bb9719b43ebf322e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:56 +0000
Subject: [PATCH 25/26] fix: network render no longer overwrites and removes
 the file named like the picture without its ending

---
 factorio_sat/network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index c840118..8b31074 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -117,8 +117,10 @@ def plot(network, filename=None, engine='dot'):
     if filename is None:
         g.render('Network', format='png', view=True, cleanup=True)
     else:
-        prefix, ext = path.splitext(filename)
-        g.render(prefix, format=ext[1:], view=False, cleanup=True)
+        _, ext = path.splitext(filename)
+        picture = g.pipe(format=ext[1:])
+        with open(filename, 'wb') as f:
+            f.write(picture)
 
 
 def remap_colours(network, colour_map):
-- 
2.43.0


From 483997602cd4164b262e6c06c3000c548cfff09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:56 +0000
Subject: [PATCH 26/26] fix: network render draws both of two belts of one
 colour at the same splitter

---
 factorio_sat/network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index 8b31074..c551a96 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -83,16 +83,16 @@ def plot(network, filename=None, engine='dot'):
     INPUT_SIDE = False
     OUTPUT_SIDE = True
 
-    colour_occurences = collections.defaultdict(set)
+    colour_occurences = collections.defaultdict(list)
     for i, (inputs, outputs) in enumerate(network):
         for colour in inputs:
             if colour is None:
                 continue
-            colour_occurences[colour].add((OUTPUT_SIDE, i))
+            colour_occurences[colour].append((OUTPUT_SIDE, i))
         for colour in outputs:
             if colour is None:
                 continue
-            colour_occurences[colour].add((INPUT_SIDE, i))
+            colour_occurences[colour].append((INPUT_SIDE, i))
 
     for i, _ in enumerate(network):
         g.node(str(i), label='')
-- 
2.43.0

