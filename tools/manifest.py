"""Regenerates MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P22": ("Uri.tla / UriObj.tla: RFC 3986 splitting specified in TLA+, all strings up to a bound enumerated by TLC, object histories explored per transition; every one replayed into URI/URIView",
         "Exhaustive strings over the delimiter alphabet up to the bound; every transition of the two-object machine, random longer histories."),
 "P23": ("Base64.tla: RFC 4648 specified in TLA+; payloads emitted by TLC and decoded by every implementation of the real library with guarded buffers",
         "All lengths across the vector boundaries, every symbol in every position; contents otherwise sampled."),
 "P24": ("SmallVector.tla / StaticVector.tla: sequence machine explored by TLC (one behaviour per transition plus simulation), replayed into the real containers with counting elements under ASan",
         "Every transition for inline capacities and element types in the bound, random deeper histories."),
 "P25": ("FlagOptional.tla explored with TLC; behaviours replayed into the real class",
         "Exhaustive per transition and for all operation pairs on three representative values per type; random deeper histories."),
 "P27": ("Bounds.tla: the bounds machine explored with TLC; behaviours replayed into Accessor::updateBoundsToInclude / AccessorBoundsArray",
         "Every transition of the bounded machine over integer/double scalars and vectors."),
}
SCHEMA = "Schema.tla/Gltf.tla: the glTF object schema, defaults, extensions and category closure specified in TLA+; TLC enumerates every variant of every object and simulates larger documents; "
T.update({
 "P01": (SCHEMA + "each document is written in several styles, loaded by the real parser and the complete asset compared with the specification's interpretation",
         "Every variant of every object in the specification's pools; combinations of objects sampled."),
 "P03": (SCHEMA + "each document is loaded with extensions all on, all off, one on and one off and compared with the interpretation under that set",
         "Every extension used by a document toggled alone; arbitrary subsets sampled through multi-object documents."),
 "P05": (SCHEMA + "each document is loaded with every single category, OnlyRenderable and random subsets and compared with the interpretation restricted to the dependency closure",
         "All single categories, all pairs and random subsets over sampled documents."),
})
T.update({
 "P02": ("Gltf.tla (malformed documents: every object with one defect, classified by the specification), JsonText.tla (token sequences and whether they are JSON), truncations and mutations of enumerated documents; replayed into the real parser, and everything that processes an asset, under ASan with guarded buffers and time limits",
         "Every defect of the specification's pools alone; every token sequence up to the bound; truncation points and mutations sampled."),
})
SES = "Session.tla/Document.tla: the outcome of a load as a function of document, configuration and arguments, specified in TLA+; "
T.update({
 "P04": (SES + "TLC enumerates required-extension lists, asset information and parser configurations; each document is loaded by the real parser with every configuration",
         "Every extension alone and every short list over known/unknown/enabled/disabled extensions, every form of asset information of the specification."),
 "P06": (SES + "TLC simulates histories over several parsers, sources and assets; each history is replayed and every load compared with its outcome, every asset looked at again after every step",
         "Random histories (every pair of neighbouring operations occurs many times); pools of 19 documents."),
 "P10": (SES + "TLC enumerates where the bytes of every buffer and image come from and how they are delivered; each combination loaded by the real parser and every byte compared",
         "Every kind of reference alone and in selected combinations, every delivery mode and option set."),
 "P07": (SES.replace("Session.tla/Document.tla", "Glb.tla") + "the GLB container as an automaton over its fields, each one at and around its boundaries; TLC enumerates files, which are built byte by byte and loaded from every kind of source",
         "Every field wrong alone and every pair of wrong fields; chunk sizes 0-9."),
 "P09": (SES.replace("Session.tla/Document.tla", "Sources.tla") + "one document delivered through every kind of data getter, its interface exercised directly and by the parser; the results have to be the same",
         "Every source kind with every document of the pool, getter operation sequences up to a bound."),
 "P11": (SES + "the map/unmap/decode protocol is judged on the recorded callback traces of every enumerated load",
         "Every kind of reference with every callback configuration and every source kind."),
})
EXP = "Export.tla: configuration, asset, form and options of an export and its outcome specified in TLA+; "
T.update({
 "P08": (EXP + "TLC enumerates first buffers, sizes and JSON alignments; every asset is exported as GLB by the real exporter, the container is taken apart and loaded again",
         "Every alignment of both chunks, every kind of first buffer with selected other content."),
 "P12": (SCHEMA + "the calls of the extras callbacks are part of a load's and an export's outcome; each document is loaded with several category sets and exported with the extras read and with other ones, and the recorded calls and the documents compared",
         "Extras of every form at every object of the specification's documents; category sets and combinations sampled."),
 "P13": (SCHEMA + "each document is loaded, exported in every form, loaded again and the complete assets compared",
         "Every variant of every object in the specification's pools; combinations of objects sampled."),
 "P14": ("Text.tla: JSON strings and documents as automata over their characters; TLC enumerates texts and judges what prettyPrintJson and escapeString of the real code made of them",
         "Every string up to the bound over the characters that matter, documents from the other specifications with longer texts."),
 "P15": (EXP + "TLC simulates histories over several exporters and assets; each export of a history is compared with the same export by a fresh exporter",
         "Random histories of 16 steps over 8 assets, 3 configurations, 4 forms and 4 option sets; the reference of each combination is enumerated."),
 "P16": (EXP + "TLC enumerates names, folders, references, targets and obstacles; each asset is exported into a scratch directory, whose content is compared with the specification's, and loaded again",
         "All pairs of names of the pool, every folder configuration with each name, every obstacle at every file."),
})
T.update({
 "P17": ("Accessor.tla/AccessorData.tla: accessors as views of bytes and what each way of reading has to yield, specified in TLA+; TLC enumerates component types, shapes, strides, offsets and data, and every one is read by the real accessor tools under ASan",
         "Every component type and shape with every stride kind and target type of the pools; data words sampled around the representable limits."),
 "P18": ("Accessor.tla: sparse substitution and sequences of iterator operations specified in TLA+; TLC enumerates accessors, index lists and histories of several iterators, each replayed into the real iterators",
         "All sparse index types, bases and list shapes of the pools; iterator histories up to a bound and sampled longer ones."),
 "P19": ("Scene.tla: traversal of a node graph as a stack machine in TLA+, transforms as exact integer products; TLC enumerates graphs, each traversed by the real library, built in memory and loaded",
         "Every graph of up to 3 nodes (4 when thorough), sampled graphs of 6 nodes."),
 "P20": ("Validate.tla: the checked rules of glTF as predicates in TLA+; TLC explores every change of one member from conforming assets and sampled histories of changes; each asset is built, validated, exported with validation and loaded again",
         "Every single change of the specification's pools at every position; several changes sampled."),
 "P21": ("MeshIndices.tla: primitives without indices specified in TLA+; TLC enumerates documents and judges the index lists that the real parser generated",
         "All modes, vertex counts around the limits of the component types, mesh shapes; combinations sampled."),
 "P26": ("Decompose.tla: translations, rotations by exact quaternions and scales composed in TLA+ with integers; TLC enumerates matrices, which the real library decomposes, loads and exports",
         "Every combination of the pools of rotations, scales and translations; compositions of several sampled."),
 "P28": ("Linear.tla/MathVec.tla/MathMat.tla: vectors, matrices and quaternions over exact rationals in TLA+; TLC enumerates operands and emits results, compared with the real math types for every element type and size",
         "All operations over exhaustive small operands, sampled larger ones; tolerances only where square roots or divisions occur."),
})
IDS = ["P%02d" % i for i in range(1, 29)]
NA = [{"property": p, "reason": "its check is still being built"} for p in IDS if p not in T]
def main():
    checks = [{"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "python3 tools/check.py %s --thorough" % p,
               "technique": "TLA+/TLC model with conformance replay. " + t, "level": "model_checking", "level_note": n} for p, (t, n) in sorted(T.items())]
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
         "hooks": {"guard": "none", "enable": "no hooks are needed: every check observes the public API", "source_commits": []},
         "checks": checks, "not_applicable": NA, "notes": ""}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
