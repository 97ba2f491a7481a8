#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, observe, note, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                why_tests_cant=why, anchors=a, _note=note)

PROPS = [
P("C01", "Write then read returns the same entries in every format",
  "Entries written through an entry writer and closed without error are read back as the same entries, in the same order, with the same keys, values and number kinds, for every supported format and compression and however the bytes are delivered to the reader. The bytes written are also valid for independent decoders of the format, which find the same entries in them. An entry or structure the format can't represent is refused, and a refused entry leaves no trace.",
  ["inputs", "configurations", "schedules"],
  "every body of values the format can represent, every format x compression x format option, every split of the bytes over read calls",
  "The tests round-trip a handful of fixed files through an in-memory reader that returns everything in one call; value boundaries, buffer boundaries, option combinations and fragmented delivery are not reached.",
  ["dsio/dsio.go", "dsio/json.go", "dsio/cbor.go", "dsio/csv.go", "dsio/ndjson.go", "dsio/xlsx.go", "dsio/entry_buffer.go", "compression/compression.go"],
  [("entry readers and writers per format", "dsio/*.go: NewEntryReader, NewEntryWriter, ReadEntry, WriteEntry, Close"), ("compression layers", "dsio/dsio.go: maybeWrapDecompressor, maybeWrapCompressor")],
  ["bytes reaching the sink", "entries returned by the reader"],
  "seeded search over bodies, options and delivery patterns against a value model and independent decoders (encoding/json, encoding/csv, ugorji, excelize); trusts those decoders"),
P("C02", "A failing or cut-short source is never mistaken for a complete body",
  "When the byte source of a body fails or ends early, reading delivers only a prefix of the body's entries and then reports an error, never a clean end as if the body were complete. Reading never returns entries that are not in the body, never skips entries before the fault, and always terminates.",
  ["fault_sequences", "inputs", "schedules"],
  "every byte position at which a source is cut, fails for good or fails once, for every format, compression and delivery pattern",
  "Tests use healthy in-memory readers; no test injects a read error or a cut at a chosen byte, so the end-of-data and error paths of the readers are not exercised.",
  ["dsio/json.go", "dsio/cbor.go", "dsio/csv.go", "dsio/ndjson.go", "dsio/dsio.go", "dsio/entry.go", "compression/compression.go"],
  [("error propagation in readers", "dsio/*.go: ReadEntry"), ("drain helpers", "dsio/entry.go, dsio/dsio.go: EachEntry, ReadAll, Copy")],
  ["entries and error of the reader"],
  "seeded search over fault position, kind and delivery; cuts that are undetectable by format (line ends of plain CSV/NDJSON) are excused"),
P("C03", "Writers report every lost byte",
  "If any byte of an entry or of the body's framing does not reach the sink, some write or the close of the writer reports an error. If every call succeeds, the sink holds the complete body.",
  ["fault_sequences", "inputs", "configurations"],
  "every byte position and kind of sink failure (full, permanent error, single failed call, short write) for every format and compression",
  "Tests write to in-memory buffers that cannot fail.",
  ["dsio/json.go", "dsio/cbor.go", "dsio/csv.go", "dsio/ndjson.go", "dsio/xlsx.go", "dsio/dsio.go"],
  [("write error propagation", "dsio/*.go: WriteEntry, Close"), ("compressor closing", "dsio/*.go: Close")],
  ["errors returned by the writer", "bytes held by the sink"],
  "seeded search over sink faults; completeness judged by decoding the sink's bytes"),
P("C04", "A refused entry leaves the body intact",
  "When a writer refuses an entry it cannot represent, the entries written before and after it are unaffected: the finished body is well formed and holds exactly the accepted entries.",
  ["histories", "inputs", "configurations"],
  "every interleaving of accepted and refused entries in every format",
  "Tests check that a bad entry gives an error, and stop there; they do not finish and read back the body.",
  ["dsio/json.go", "dsio/cbor.go", "dsio/csv.go", "dsio/ndjson.go", "dsio/xlsx.go"],
  [("encode before emitting separators", "dsio/*.go: WriteEntry")],
  ["bytes held by the sink", "errors returned by the writer"],
  "seeded search over histories of good and bad entries"),
P("C05", "Paging and batching select exactly the requested entries",
  "Reading a window of a body by offset and limit yields exactly the entries of that window, no more and no fewer, and iterating in pages or batches covers every entry exactly once. A failing source makes paging fail or return a correct part of the window, never wrong entries.",
  ["inputs", "configurations", "fault_sequences"],
  "every offset, limit, page and batch size against every body size, format and compression, with and without source faults",
  "Tests check a few fixed windows over small bodies.",
  ["dsio/entry.go", "dsio/dsio.go", "dsio/entry_buffer.go", "dsio/streams.go"],
  [("paged reader", "dsio/dsio.go, dsio/streams.go")],
  ["entries returned"],
  "seeded search over windows and body sizes against list slicing"),
P("C06", "Converting a body keeps its entries or fails",
  "Converting or copying a body between formats and compressions yields a body with the same entries in the same order, or reports an error. A fault on the source or an unrepresentable value never yields a shorter or different body that is reported as converted.",
  ["inputs", "configurations", "fault_sequences"],
  "every pair of source and target format and compression, every body, window and source fault",
  "Tests convert a few fixed files between a few formats from healthy files.",
  ["dsio/dsio.go", "dsio/entry.go", "dsio/json.go", "dsio/cbor.go", "dsio/csv.go", "dsio/ndjson.go", "dsio/xlsx.go"],
  [("ConvertFile, Copy", "dsio/dsio.go")],
  ["converted bytes", "returned error"],
  "seeded search over format pairs, windows and faults"),
P("C07", "Inspecting a dataset never consumes or alters its files",
  "Detecting a structure, creating a preview and rendering a visualization leave the dataset's body, readme and script files readable from their first byte with unchanged contents and names, whether the operation succeeds or fails and in any sequence. Parts of the structure that were given are not changed, creating a preview or rendering does not change the dataset's document, and a failure of a file's source stays visible to later readers.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of inspections, with every placement of source faults, over every body",
  "Tests inspect once and look at the result, rarely at the file left behind, and never after a failure.",
  ["detect/detect.go", "preview/preview.go", "dsviz/render.go", "dataset.go"],
  [("file restoration after reading", "preview/preview.go: Create; dsviz/render.go: Render; detect/detect.go: Structure")],
  ["the dataset's files after each operation"],
  "seeded search over operation sequences and faults, byte comparison of the files left behind"),
P("C08", "Previews and renders show exactly the data, or fail",
  "A preview holds the dataset's components, exactly the first entries of the body, up to its limit, and the readme text up to its limit; a rendered template sees the dataset's fields and exactly the body entries it asks for, with their kinds. When a source fails, the operation fails and does not show partial data as complete.",
  ["inputs", "fault_sequences", "histories"],
  "every body, window, template request and source fault, repeated in any order on the same dataset",
  "Tests compare a few fixed previews and renders of healthy files.",
  ["preview/preview.go", "dsviz/render.go"],
  [("Create", "preview/preview.go"), ("bodyEntries template functions", "dsviz/render.go")],
  ["preview document", "rendered output"],
  "seeded search; output compared with the model"),
P("C09", "Statistics describe every entry exactly once",
  "Calculated statistics equal those of a reference calculation over exactly the body's entries: counts, extremes, means, lengths, frequencies and histograms per column or key. They do not depend on delivery, do not change when finished twice, and a failing source yields an error instead of statistics of a part.",
  ["inputs", "fault_sequences", "configurations"],
  "every body, column mix, nesting and value range, format, delivery pattern and source fault",
  "Tests compare statistics of a few fixed bodies; boundaries of the number kinds, histogram merging and failing sources are not reached.",
  ["dsstats/stats.go", "dsstats/histosketch/histosketch.go"],
  [("accumulators", "dsstats/stats.go: Accumulator, numericAcc, stringAcc, boolAcc, nullAcc, arrayAcc, objectAcc")],
  ["statistics document"],
  "seeded search against a reference calculation; sketches are exact up to their documented capacity and bounded beyond it"),
P("C10", "Body validation reports exactly the invalid entries, or fails",
  "Validating a body against its schema reports an error for each entry that breaks the schema, located at that entry, and none for a body that satisfies it. The verdict does not depend on delivery or map order, and a source that fails or is cut short makes validation fail instead of passing the part that was read.",
  ["inputs", "fault_sequences", "schedules"],
  "every body and row schema, every position of invalid entries relative to the internal batches, every delivery pattern and source fault",
  "Tests validate a few small healthy files; bodies longer than one batch, failing sources and error locations past the first batch are not reached.",
  ["validate/validate.go", "validate/dataset.go", "dsio/dsio.go"],
  [("batched body validation", "validate/validate.go: EntryReader")],
  ["validation errors returned"],
  "seeded search over row schemas and bodies against a reference validator of the generated schema subset; constraints on the body as a whole are a known finding (checked per batch)"),
P("C11", "In-memory values stream as entries exactly once under any schedule",
  "Reading a value held in memory as entries yields every element or member exactly once, arrays in index order, and then the end, under every interleaving of the producer and the consumer. Closing at any point, from the consumer or from another task, never deadlocks, crashes or makes a read return a wrong entry.",
  ["schedules", "inputs", "histories"],
  "every interleaving of reads, closes and the internal producer, over every array and map, empty ones included",
  "Tests read a few values to the end under whatever schedule the machine happens to pick; closes in between and rare interleavings are not reached.",
  ["dsio/identity.go"],
  [("producer feeding a channel", "dsio/identity.go: NewIdentityReader, ReadEntry, Close")],
  ["entries returned", "progress of the caller"],
  "seeded search over schedules at every channel operation and instrumented statement; quiescence and a step bound decide deadlock"),
P("C12", "Closed or failed operations leave nothing running",
  "After a reader, writer or stream is closed, or an operation on a body has returned, successfully or with an error, no background task belonging to it is still running or blocked, and no file it opened itself is left open. This holds whatever faults the sources and sinks have shown.",
  ["fault_sequences", "schedules", "histories"],
  "every operation on a body, every source and sink fault and early close, every schedule",
  "Tests never look for tasks left behind, and the process ends soon after.",
  ["dsio/dsio.go", "dsio/identity.go", "dsio/streams.go", "dsio/entry.go", "dsio/json.go", "dsio/cbor.go", "dsio/csv.go", "dsio/ndjson.go", "compression/compression.go", "preview/preview.go", "detect/detect.go", "dsviz/render.go"],
  [("closing of decompressors and compressors", "dsio/*.go: Close and error paths of constructors"), ("identity reader producer", "dsio/identity.go: Close")],
  ["tasks alive after the operation"],
  "all tasks the code starts are owned by the simulator, so a task left over is seen exactly"),
P("C13", "Concurrent operations do not affect each other",
  "Operations on different bodies running at the same time, even when they share a structure description, give exactly the results they give alone. They leave shared descriptions and package-wide defaults unchanged.",
  ["schedules", "histories"],
  "every set of operations (read, write, convert, detect, preview, statistics, validate, render), every interleaving of their statements and I/O, sharing or not",
  "Tests run one operation at a time.",
  ["dsio/dsio.go", "dsio/json.go", "dsio/cbor.go", "dsio/csv.go", "detect/detect.go", "preview/preview.go", "dsstats/stats.go", "validate/data.go", "dsviz/render.go", "structure.go", "tabular/tabular.go"],
  [("package-level values and shared structures", "structure.go: BaseSchemaArray, BaseSchemaObject; detect, preview, dsstats")],
  ["results of each operation", "shared structure and package-level defaults afterwards"],
  "seeded search over interleavings at instrumented statements; each operation compared with its solo run"),
P("C14", "Entries handed over stay what they were",
  "An entry returned by a reader keeps its value while later entries are read, the reader is closed or the data it came from is reused. An entry passed to a writer, statistics, a buffer or validation is not changed by it, and changing it afterwards does not change what was recorded.",
  ["histories", "inputs"],
  "every sequence of reads, writes, later mutations and closes over every body",
  "Tests look at each entry once, right after it was returned.",
  ["dsio/json.go", "dsio/cbor.go", "dsio/csv.go", "dsio/ndjson.go", "dsio/entry_buffer.go", "dsio/dsio.go", "dsstats/stats.go", "validate/data.go"],
  [("buffers reused between entries", "dsio/*.go: ReadEntry, WriteEntry")],
  ["entries held by the caller", "bytes and statistics recorded"],
  "snapshots taken at hand-over are compared after later operations"),
P("C15", "Damaged or hostile bytes never crash, hang or exhaust a reader",
  "Reading, detecting, validating, previewing or restoring from arbitrary bytes, damaged in storage or made to do harm, ends in entries or an error within a bounded number of steps and memory proportional to the input. It never crashes the process.",
  ["inputs", "fault_sequences"],
  "every byte string derived by flips, cuts, splices, repeated blocks, oversized lengths and deep nesting, in every format, through every reading operation",
  "Tests feed well-formed files and a few fixed malformed ones.",
  ["dsio/json.go", "dsio/cbor.go", "dsio/csv.go", "dsio/ndjson.go", "dsio/xlsx.go", "detect/detect.go", "detect/json.go", "detect/cbor.go", "stepfile/stepfile.go", "dsstats/histosketch/histosketch.go", "dataset.go"],
  [("length and nesting handling", "dsio/json.go, dsio/cbor.go")],
  ["crashes, steps and memory of the operation"],
  "seeded corruption of valid bodies plus constructed hostile inputs; step, time and memory limits per run"),
P("C16", "Stepfiles keep every step, or report what was lost",
  "Steps written to a step file are read back as the same steps in order. A fault while writing or reading is reported, and never yields a shorter or different list of steps as if it were complete.",
  ["inputs", "fault_sequences"],
  "every list of steps and scripts, every position and kind of file fault, every delivery pattern",
  "Tests round-trip one fixed file.",
  ["stepfile/stepfile.go"],
  [("Read and Write", "stepfile/stepfile.go")],
  ["steps read", "error returned"],
  "seeded search over step lists, cut, failing and slow files"),
P("C17", "Detected structures describe the data and read it back",
  "Detecting the structure of a file finds its format and compression from its name, and its shape from its bytes: header row, columns, column types and top-level type are those of the data. Reading the file with the detected structure yields the data, and a source that fails during detection is reported.",
  ["inputs", "fault_sequences", "configurations"],
  "every mix of column kinds, headers, row lengths, line endings, name, compression, delivery pattern and source fault",
  "Tests detect a few fixed files.",
  ["detect/detect.go", "detect/json.go", "detect/cbor.go", "detect/determineFields.go", "dsio/replacecr/replace_cr.go"],
  [("format detection", "detect/detect.go: FromFile, FromReader, FormatFromFilename, Structure"), ("column detection", "detect/determineFields.go")],
  ["detected structure", "entries read with it"],
  "generated files with a known shape; detection compared with a reference of its documented rules"),
P("C19", "Byte-stream adapters pass on every byte and every failure",
  "The adapters data flows through (line-ending repair, byte counting, compression and decompression) deliver exactly the bytes of their source, transformed as documented, however the source is split and whatever buffer sizes the consumer uses. A failure of the source, or of the sink, reaches the caller after all bytes before it, never as a clean end.",
  ["inputs", "fault_sequences", "schedules"],
  "every byte stream, split, consumer buffer size and fault position",
  "Tests pass a few short strings through with one read.",
  ["dsio/replacecr/replace_cr.go", "dsio/tracked_reader.go", "compression/compression.go"],
  [("line-ending repair", "dsio/replacecr/replace_cr.go"), ("byte counting", "dsio/tracked_reader.go"), ("compression wrappers", "compression/compression.go")],
  ["bytes delivered", "error returned", "byte counts"],
  "seeded search over splits and faults against a reference transformation"),
P("C18", "Files loaded from a store are complete, or loading fails",
  "Opening or inlining the script, rendered or body file of a dataset component from a store gives exactly the bytes the store holds, text given inline takes precedence over the store, a script made inline no longer refers to the store, and several loads at the same time do not mix up their files. When the store cannot deliver a file completely or the caller cancels, the load reports it, leaves the component's text and path as they were, and keeps no file open.",
  ["fault_sequences", "schedules", "histories", "inputs"],
  "every sequence of opens and inlines by concurrent clients, every store latency, failed or cancelled lookup and read fault",
  "Tests load a few strings from a map-backed resolver that cannot fail, be slow or be cancelled.",
  ["transform.go", "readme.go", "viz.go", "dataset.go"],
  [("OpenScriptFile, OpenRenderedFile, InlineScriptFile", "transform.go, readme.go, viz.go"), ("OpenBodyFile", "dataset.go")],
  ["file contents and text after loading", "errors", "files left open"],
  "seeded search over histories against a simulated store with latency, errors, cancellation and failing reads"),
P("C20", "Stored documents read back as the documents they were",
  "A dataset or any of its components saved as a document and restored, in one piece or after passing through several saves, equals what was saved, and saving it again gives the same bytes, the same content hash and the same bytes to sign, while other content has another hash. A reference to a component is kept as a reference, and a document that was cut short or partly overwritten by a crash is refused and not restored in part. Metadata filled in field by field equals the same metadata restored from a document. The options of a format and its name survive being stored, too.",
  ["inputs", "fault_sequences", "histories"],
  "every combination of set and unset fields and additional metadata, every torn or lost write of the document",
  "Tests encode and decode a few fixed documents.",
  ["dataset.go", "meta.go", "structure.go", "commit.go", "transform.go", "viz.go", "readme.go", "stats.go", "data_format_config.go", "data_format.go"],
  [("CSVOptions.Map, ParseFormatConfigMap", "data_format_config.go"), ("MarshalJSON, MarshalJSONObject, UnmarshalJSON per component", "dataset.go, meta.go, structure.go, commit.go, transform.go, viz.go, readme.go, stats.go")],
  ["bytes of the document", "restored components"],
  "seeded search over documents and crash points of a simulated document store against field-wise comparison"),
P("C21", "Generated data fits its schema and repeats from its seed",
  "Generated rows have the columns and types their schema asks for, keep within the configured lengths, and are independent of each other. Generators with the same seed give the same rows, also while other generators run at the same time, and a generator leaves the structure it was given unchanged.",
  ["inputs", "schedules", "configurations"],
  "every schema of columns, seed, count and interleaving of several generators",
  "Tests generate a few rows for a few schemas and look at their type.",
  ["generate/generate.go", "generate/value.go", "tabular/tabular.go"],
  [("NewTabularGenerator, ReadEntry", "generate/generate.go"), ("value generator", "generate/value.go")],
  ["entries generated"],
  "randomness is seeded by the simulator; several generators are interleaved and compared with solo runs"),
P("C22", "Histogram sketches count every value through merges and restarts",
  "A histogram sketch counts every value added or merged into it exactly once, keeps its buckets ordered and within their limit, keeps the exact extremes and the sum of the values, and answers exactly while the distinct values fit its buckets. Saving and restoring gives the same sketch, and a save that was cut short is refused.",
  ["histories", "fault_sequences", "inputs"],
  "every history of additions, merges between several sketches, saves, torn saves and restarts",
  "Tests run one sketch through fixed samples without restarts or merges of merged sketches.",
  ["dsstats/histosketch/histosketch.go"],
  [("AddMany, Merge, MarshalBinary, UnmarshalBinary, NewFromSample", "dsstats/histosketch/histosketch.go")],
  ["counts, buckets, extremes, sums and quantiles", "saved bytes"],
  "seeded histories of several nodes with crashes, against a multiset of the values"),
P("C23", "Merging documents keeps every value set later",
  "Merging dataset documents or components in order yields, for every field, the last value that was set (the identifier: the first), and leaves fields nobody set as they were. The documents merged in are not changed, neither by the merge nor by later merges into or changes of the result. Several merges of the same documents, at the same time or continued after a restart from a saved copy, give the results they give alone.",
  ["histories", "schedules", "inputs"],
  "every history of merges, edits, saves and crashes by several editors sharing documents, under every schedule",
  "Tests merge a few fixed documents into empty ones and never look at the merged documents again.",
  ["dataset.go", "commit.go", "meta.go", "readme.go", "stats.go", "structure.go", "transform.go", "viz.go"],
  [("Dataset.Assign", "dataset.go"), ("Meta.Assign", "meta.go"), ("Transform.Assign", "transform.go"), ("Structure.Assign", "structure.go")],
  ["the merged document and its files", "the documents merged in"],
  "seeded search over histories of concurrent editors with crashes and restarts, against a field-by-field reference model"),
]

def N(reason, *a):
    p = P(*a, None)
    p["_reason"] = reason
    return p

PURE = "a pure function of values in memory: no clock, task, I/O, storage or randomness takes part, so there is no schedule or fault to inject and a simulated run would be a plain input test"
NA = [
N(PURE,
  "C24", "Differences between documents are complete and minimal",
  "Comparing two documents or components reports a difference exactly when they differ, names every component that changed and no other, and applying the reported changes to the first yields the second.",
  ["inputs"], "every pair of documents",
  "Tests compare a few fixed pairs and their printed summaries.",
  ["dsdiff/dsdiff.go", "dstest/compare.go"],
  [("diffs per component and their summaries", "dsdiff/dsdiff.go")], ["reported changes"]),
N(PURE + "; the types and values found in files are covered by C01, C09 and C17",
  "C25", "Cell values keep their kind and order",
  "The kind found for a text is the narrowest that represents it, parsing a text of that kind gives its value, and comparing two values of a kind is a total order that agrees with their equality.",
  ["inputs"], "every text and every pair of values",
  "Tests parse and compare short tables of examples.",
  ["vals/type.go", "vals/value.go", "vals/compare.go", "vals/coding.go", "vals/object_value.go"],
  [("ParseType, CompareTypeBytes, Equal", "vals")], ["kinds, values and comparison results"]),
]

def main():
    built = [p for p in PROPS if p["_note"]]
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = {"version": 1,
         "setup_cmd": "bash /verif/setup.sh",
         "hooks": {"guard": "no hooks are committed in /repo: every check instruments a copy of the working tree at build time (go build -overlay)",
                   "enable": "check.sh runs sim/instr over /repo and builds with -overlay; /repo's files stay as they are", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": f"bash /verif/check.sh {p['id']} quick", "thorough_cmd": f"bash /verif/check.sh {p['id']} thorough",
                     "evidence_file": f"evidence/{p['id']}.json", "technique": "deterministic simulation with fault injection: seeded search over schedules, deliveries and faults",
                     "level": "exploration", "level_note": p["_note"]} for p in built],
         "not_applicable": [{"property": p["id"], "reason": p["_reason"]} for p in NA],
         "notes": "One simulator binary decides every property; see DESIGN.md. The fix: commits in /repo are listed in known_findings.json."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
