import json
c=json.load(open('/verif/harness/config.json'))
T=[]
T.append(r'''# DESIGN: deciding the properties of GTMesh by runtime monitoring and sanitizers

GTMesh is a header-only C++14 library: unstructured meshes (topology, geometry, file formats), class traits, binary
serialization, debug exports and loggers. Its guarantees are therefore about *every* mesh, file, class, value and
history a program may come up with. `properties.jsonl` states 34 of them; every one is decided by running the real
headers under instrumentation and comparing what is observed with an independent oracle. None is "not applicable".
`tools/props*.py` is the single source of `properties.jsonl`, `MANIFEST.json` and `harness/config.json`.

## 1. The machinery

* `run.py <ID> quick|thorough` compiles the driver `harness/<ID>*.cpp` against `/repo/src` (working tree; the object key
  is a hash over all headers, so any edit rebuilds), runs it in 8 processes and collects violations, evidence and
  replay files. `--replay f` reruns one recorded case, `VERIF_REPO` points to another tree, `VERIF_SEED` shifts all random numbers.
* **Flavours.** `san`: g++ ASan + UBSan (no recovery), `_GLIBCXX_ASSERTIONS`, automatic variables filled with a pattern so
  that reads of uninitialised values change results; stack-use-after-return detection on. `vg`: valgrind memcheck on a
  subset of the cases (uninitialised values, exit on first error). `tsan`: ThreadSanitizer (C32). C++14, `-w`.
* **Workloads** (`meshgen.h`): conforming random meshes in 2D/3D/4D built in an independent reference model `Ref<D>`
  (incidence table + coordinates): grids with merged polygons/polyhedra, faces with collinear (split) edges, dropped cells (holes, several components, non-manifold
  vertices), fans with many elements around one vertex, prisms, bent (non-planar) faces, meshes scaled by 1e-7..1e6, renumbered and
  reoriented at random (`scramble`), plus large ones of three kinds (thousands of cells; polygons with 257..340 edges and prisms with hundreds of faces; hundreds of cells round one element, to cross 8-bit limits) and huge ones (>65536 cells, to cross 16-bit limits), loaded to
  `UnstructuredMesh` with several index types (size_t, unsigned, int, uint16_t), reals (float, double, long double) and storages
  (static capacity or dynamic faces). Values, texts, class and operation histories are generated by `ser.h`, `json.h`, `C22..C24.h`,
  `tools/gen19.py`. Random numbers are splitmix64 from (seed, section, case): a case is a pure function of them.
* **Oracles** never call the function under test: incidence is recomputed from the reference model, geometry by other
  formulas (`geo.h`, long double), files by strict parsers and writers of the monitor (`io.h`: VTK, FPMA; `json.h`: JSON/JavaScript),
  sequences and histories by a model (C06, C16, C17, C26, C27, C30, C33, C34), numbers by member-wise recomputation.
* **Faults**: truncated and damaged files and byte strings, missing/unwritable/full targets (`/dev/full`, directories), allocations above
  64 MB failing with bad_alloc (`bignew.h`), exceptions in the middle of a load, leaks checked by counting allocations.
* **Evidence** (`evidence/<ID>.json`): number of cases, distinct cases (hash of the mesh, file, history, operands ...), counts of
  observed events per kind, samples. Every check has a minimum of events (`min_events`); below it the check gives exit 2, never HELD.
  A case that throws unexpectedly, crashes, trips a sanitizer, hangs (60 s without progress) or leaves the model is a VIOLATION with a replay file.
* `probe_*` sections run alone and demonstrate the known findings.

Everything is exploration: it shows the absence of violations on what was executed, nothing more. `thorough` runs about twelve times the cases of `quick`
(sections named `huge*` unscaled); it takes 4..12 minutes per property, `quick` 20..70 s.

## 2. Per property: what decides it
''')
sec={
'C01':"The monitor writes a VTK file (its own writer; random white space, line ends, number formats, comments in the title, order of vertices of a cell rotated) from the reference model and loads it by the reader and by `UnstructuredMesh::load`; compares vertices, cells, faces and edges as sets of vertices, linkage left/right, boundary loops, indexes, cell types. Bounds: up to a few thousand cells, 2D > 66 000 cells.",
'C02':"Export through writer and `write`, strict parse (sizes of sections, types, node order up to the symmetries of VTK cells: orientation is checked by signed volume and the order by adjacency), comparison with the reference, round trip through the reader; all numbers with 17 digits and default precision.",
'C03':"Tetrahedra of every polyhedron: four distinct points, positive consistent orientation, volumes add up to the measure of the cell, union covers each (possibly non-planar) face triangle, face/cell centers added exactly once, cell index mapping complete; mixed with standard cells.",
'C04':"FPMA files written by the monitor (polyhedral format) and by the library; faces in the order of the file, cells as sets of faces, round trip, file paths with misleading extensions.",
'C05':"Seven variants of containers/traits (single container, mesh data, several containers, containers without traits or on other dimensions, bound traits, bound over default, dynamically sized and array members with long names) exported after a real mesh, parsed strictly, compared for each exported cell, also tessellated ones; files of the monitor in other orders, layouts, lookup tables; missing, truncated, invalid quantities.",
'C06':"After every step of a random history (change nodes, faces, types, reuse for another mesh, failed load ...) the used writer/reader/mesh is compared with a fresh one. Memory of the fresh one is pre-filled with the signature so that uninitialised caches are seen.",
'C07':"All prefixes, token and byte mutations, targeted damages (keywords, counts, indexes, types); accepted meshes must have all references inside; allocations counted for leaks.",
'C08':"All pairs of dimensions, `apply` from meshes and from single elements, both orders, typed and reserved storages; against transitive closure of the incidence table (each incident element once, ORIGINAL order by first appearance).",
'C09':"Against the sets of elements sharing a connecting element computed from the reference, all triples of dimensions.",
'C10':"Random seeds, both methods, all dimension pairs: every element coloured, no two connected of one colour, bound on number of colours of the greedy method, fans forcing >64 colours.",
'C11':"Against arithmetic/weighted centers of geo.h; default and tessellated method, 2D..4D, scaled meshes, initializeCenters.",
'C12':"Against fan/tetrahedral decomposition in long double, sums against the total measure of the domain, bent faces, 4D.",
'C13':"Unit length, orthogonality to all edges, direction from left to right cell, sum over closed cells is zero, 4D as pinned by the unit test, boundary faces on either side.",
'C14':"Against the reference centers; faces with a missing left or right cell (face center stands in), before and after boundary cells are set up.",
'C15':"Sign of each edge of each face against the traversal order in the reference around the normal, scaled meshes (tolerances must be relative).",
'C16':"State machine over one connection (four index types, 3..30 operations) and whole meshes: linkage, swap, boundary cell coding, clear, boundary loops of both cells after each operation.",
'C17':"Sequence model of containers of capacity dynamic/1/4/8/20/300, operations up to and beyond the capacity, copies, aliasing; element storage, typed indexes.",
'C18':"Sizes, default/initial values, reallocation for another mesh, by dimension, position and element access, tuple and homogeneous containers, const forms; each element addresses exactly one datum (all addresses distinct).",
'C19':"Generated invocations for 1..40 arguments and 18 trait macros (tools/gen19.py), side-effect recording of evaluation order.",
'C20':"Each operator and method against scalar loops in the same type (exact) or long double; float..long double, int, int64, dims 1..9; NaN, infinities, aliasing, mixed types.",
'C21':"Orthogonality, span, norms, order for well-conditioned random sets, n<=d<=5, three real types.",
'C22':"21 kinds of accessors x value types: every get/set/attr form followed by a comparison of every byte-visible member of the object; constness, names, mesh data container traits.",
'C23':"Text printed for nested objects under every list of bound traits against an own renderer; selection at compile time.",
'C24':"15 classes x operand categories (const, named, temporary) x operations in two include orders and in a namespace; members with non-commutative arithmetic (texts, matrices); aliasing, lifetime of results, aggregates.",
'C25':"62 types, random values: write, read to dirty targets, compare, exact number of consumed bytes, followed by other data; bound traits; sizes over reallocations.",
'C26':"Histories of typed writes, reads, resets, copies, raw blocks against a sequence model, reads interleaved with reallocation.",
'C27':"Content of files byte for byte, histories of save/load/append over files, failures (missing file, directory, /dev/full, no permission).",
'C28':"Every truncation, all byte damages, sizes of other fixed containers; nothing but an exception or a value; no access outside.",
'C29':"Text against an own renderer for about 70 types to string/file/derived streams with random formats and to stdout (captured), stream state unchanged afterwards.",
'C30':"Random histories over three files against a model; strict JSON parser; every destroyed log complete at once; macros in forked programs.",
'C31':"Exact text of console logs and macros with place and evaluation counts (each argument once, none when disabled), UNDEBUG unit, dangling-else positions.",
'C32':"2..8 threads over shared meshes/containers/serializers/traits (reads) and own objects (everything), random yields; results against sequential ones; singletons first used concurrently, each class a fresh singleton type.",
'C33':"As C30 for HTML pages: form of the page, exactly two scripts, data parsed as JavaScript literals.",
'C34':"Pages written by the logger are parsed and their scripts run in node on a minimal document (`C34.js`: tree construction, entered field values lost by innerHTML as in a browser); after every click the table is compared with a model of filters.",
}
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); i=p['id']; r=c[i]
    T.append("**%s %s.** %s Flavours: %s.%s\n"%(i,p['title'],sec[i],", ".join(x['flavour'] for x in r['runs'])," Assumed/excluded: "+"; ".join(r['assumptions'])+"." if r['assumptions'] else ""))
tail=open('/verif/tools/design_tail.md').read()
import os
rows=['| planted bug | needs | caught by |','|---|---|---|']
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d))
    rows.append('| %s | %s | %s |'%(d,m['needs'].replace('|','/'),m.get('caught',m['property'])))
tail=tail.replace('@SEEDS@',"\n".join(rows))
T.append(tail)
open('/verif/DESIGN.md','w').write("\n".join(T))
