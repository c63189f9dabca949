#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
G = "gitdiff/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": [G + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": G + w} for n, m, w in (state or [])],
                          "mechanism": [{"name": n, "where": G + w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

# ------------------------------------------------------------------ claimed: text and binary application
prop("C01", "Text patches apply exactly on any conforming source and destination",
 "When applying a text patch to the content it was made from reports success, the destination has received exactly the patched content: every byte in order, nothing lost, duplicated or changed. This holds for every patch (including patches without context lines, and with hunks held in any order; a hunk that names line 0 of a side means that side does not exist or is empty), every source size and line shape, and every source and destination that keeps to its interface contract, whichever legal way reads end at the end of the data, scratch space is used, or optional interfaces are offered; with no fault injected such an application always succeeds.",
 ["inputs", "configurations", "schedules"],
 "all source contents, all edit scripts rendered as unified hunks with any context size, all legal ReaderAt / line-source / Writer behaviours",
 "Unit tests apply about a dozen fixed files through bytes.Reader and bytes.Buffer, which show only one of the legal behaviours a source may have and never cross the internal buffer sizes together with unusual line shapes.",
 ["apply.go", "apply_text.go", "io.go"],
 [("line index over a random-access source", "io.go:lineReaderAt"), ("fragment application and leading copy", "apply_text.go:TextApplier.ApplyFragment"), ("trailing copy", "apply_text.go:TextApplier.Close")],
 ["bytes accepted by the destination", "error returned by Apply / ApplyFragment / Close"],
 [("nextLine", "first source line not yet consumed", "apply_text.go:TextApplier"), ("index", "byte offset after each line seen so far", "io.go:lineReaderAt")])

prop("C02", "Binary patches apply exactly on any conforming source and destination",
 "When applying a binary patch (literal or delta) to the content it was made from reports success, the destination has received exactly the target content, byte for byte. This holds for every target, every sequence of delta copy and insert instructions and every encoding of them, sources of any size up to the format's limits, and every source and destination that keeps to its interface contract; with no fault injected such an application always succeeds.",
 ["inputs", "configurations"],
 "all delta instruction sequences and their encodings, sources from empty to beyond 4 GiB, all legal ReaderAt / Writer behaviours",
 "Tests apply five small git-generated binary patches; offsets above a few kilobytes, the larger size and offset bytes, and sources that end reads differently from bytes.Reader are never exercised.",
 ["apply.go", "apply_binary.go", "binary_reader.go"],
 [("delta interpreter", "apply_binary.go:applyBinaryDeltaFragment"), ("source size check", "io.go:isLen"), ("inflating reader", "binary_reader.go:binaryReader")],
 ["bytes accepted by the destination", "error returned by Apply / ApplyFragment / Close"])

prop("C03", "I/O failures while applying are always reported, as what they are",
 "If any read of the source or any write to the destination fails or is cut short while a patch is being applied, the application reports failure and the reported error wraps the very error the source or destination returned (or says the write was short when it returned none). Such a failure is never turned into success, and on a matching source it is never presented as a conflict.",
 ["fault_sequences", "crash_points", "inputs"],
 "every I/O operation of every application x every way it can fail (no data, partial data, all data with an error, short count; transient or permanent; full disk at any byte)",
 "No existing test injects an I/O error anywhere.",
 ["apply.go", "apply_text.go", "apply_binary.go", "io.go"],
 [("error wrapping", "apply.go:applyError"), ("short write detection", "io.go:copyFrom"), ("short source versus failed source", "apply_text.go:readPreimage")],
 ["error returned by Apply / ApplyFragment / Close"])

prop("C04", "What has been written is always a prefix of the right output",
 "At every instant during the application of a patch to the content it was made from, what the destination has accepted is a prefix of the correct result, whatever faults have occurred; after the failure nothing more is written. So a crash or an I/O failure at any point leaves a truncated result but never wrong, reordered or repeated bytes. On a source that does not match the patch, a text application likewise leaves only output that agrees with the patch up to the first disagreement.",
 ["crash_points", "fault_sequences", "inputs"],
 "every instant (after each write) of every application, with and without injected faults",
 "Tests look at the destination only once, after a successful application.",
 ["apply.go", "apply_text.go", "apply_binary.go", "io.go"],
 [("output order", "apply_text.go:TextApplier.ApplyFragment"), ("copy loops advance only by what was written", "io.go:copyFrom"), ("delta executed only after its instruction stream was fully verified", "apply_binary.go:BinaryApplier.ApplyFragment")],
 ["bytes accepted by the destination after every write"])

prop("C05", "A stale source is always a conflict; a matching one never is",
 "If the source differs from what the patch requires (a context or removed line differs, lines are missing, content exists where a file is to be created or remains where one is to be emptied, hunks overlap, or a delta's source has another size), applying it fails with an error recognisable as a conflict, and as nothing else. If the source satisfies the patch, applying it never reports a conflict, and malformed patches, limits and I/O failures are not reported as conflicts.",
 ["histories", "inputs", "fault_sequences"],
 "all histories in which the source changed after the patch was made, all positions of the change, with reads delivered in any legal way and with I/O faults",
 "Tests contain eight hand-written conflicts; which mismatches are noticed depends on position relative to hunks, buffers and file end, an unbounded space.",
 ["apply.go", "apply_text.go", "apply_binary.go"],
 [("strict line comparison", "apply_text.go:applyTextLine"), ("short source", "apply_text.go:readPreimage"), ("creation and full delete checks", "apply_text.go:TextApplier.ApplyFragment"), ("delta source size", "apply_binary.go:checkBinarySrcSize")],
 ["errors.Is(err, &Conflict{})", "success or failure"])

prop("C06", "A failed application names the place where it failed",
 "When applying a text patch whose hunks are in order fails inside a hunk, the structured error identifies the 1-based number of that hunk; if the failure is a mismatch or write failure at one of the hunk's lines, also that line's 1-based number within the hunk and the 1-based source line reached. If the failure is a write failure while copying unchanged lines before a hunk, or the source ending too early, it identifies the source line concerned.",
 ["fault_sequences", "inputs"],
 "every point at which a text application can fail: each conflict position and each failing write, over all sources and patches",
 "No test checks the location fields for any failure.",
 ["apply.go", "apply_text.go"],
 [("location annotation", "apply.go:applyError")],
 ["fields of the structured apply error"])

# ------------------------------------------------------------------ claimed: parsing from streams
prop("C07", "Parsing yields exactly what was sent, however the stream delivers it",
 "Parsing a patch in the formats of git diff, git format-patch, git show or GNU diff from a stream returns exactly the files the sender described, in order, with their names, modes, flags, scores, object ids, hunks, lines and binary data, and exactly the text before the first file. The result does not depend on how the stream splits the bytes, on reads that return nothing yet, on data arriving together with end of file, or on the kind of reader; the same holds for what is returned, or refused, when the patch is damaged.",
 ["inputs", "schedules", "configurations"],
 "all patches a sender can describe x all chunkings, stalls and end-of-file styles of the stream and all reader kinds",
 "Tests parse short literals from strings.Reader, which always delivers everything in one read.",
 ["parser.go", "file_header.go", "text.go", "binary.go", "base85.go"],
 [("line look-ahead", "parser.go:parser.Next"), ("header state machine", "file_header.go:ParseGitFileHeader"), ("hunk body", "text.go:ParseTextChunk"), ("binary body", "binary.go:ParseBinaryChunk")],
 ["files, preamble and error returned by Parse"],
 [("lines", "three-line look-ahead window", "parser.go:parser")])

prop("C08", "A failed patch stream is never mistaken for a complete one",
 "If the stream a patch is parsed from fails at any point, once or permanently, parsing reports an error, and for a well-formed patch that error wraps the stream's own error. The files returned with it are exactly the leading files of the patch, each complete and correct; every file that was entirely received, up to the few lines of look-ahead after it, is among them, and none that was not.",
 ["fault_sequences", "crash_points", "inputs"],
 "every byte position and every read at which the stream can fail, transient and permanent failures, over all patches",
 "No existing test uses a stream that fails.",
 ["parser.go", "file_header.go", "text.go", "binary.go"],
 [("read error propagation", "parser.go:parser.Next"), ("partial result", "parser.go:Parse")],
 ["files and error returned by Parse"])

prop("C09", "A cut-off patch is not accepted as a smaller change",
 "If a patch stream ends early, without any error from the stream, inside the body of a hunk (before its last line has begun) or inside encoded binary data, parsing reports an error. Whatever the cut position, each file returned other than the one cut is complete and correct, the files form a leading run of those sent, and every file that was entirely received before the cut one is returned.",
 ["crash_points", "fault_sequences", "inputs"],
 "every byte position at which a stream can end, over all patches",
 "Two unit tests end inside a hunk; none ends inside binary data; cut positions are unbounded.",
 ["parser.go", "text.go", "binary.go"],
 [("hunk line counts", "text.go:ParseTextChunk"), ("binary data terminator", "binary.go:ParseBinaryChunk")],
 ["files and error returned by Parse"])

prop("C10", "Damaged binary data is never applied as if it were intact",
 "If the stored or transmitted data of a binary patch is damaged in any way (flipped bits, changed, lost, repeated or reordered pieces, a wrong size), parsing and applying it reports success only if the damaged data still decodes completely, passes its checksum and has exactly its declared size, and then the output is exactly what it decodes to. In every other case an error is reported.",
 ["fault_sequences", "inputs"],
 "all damage patterns to the encoded or decoded payload, the size and the method of literal and delta fragments",
 "Five unit tests use one hand-made damage each.",
 ["binary.go", "binary_reader.go", "base85.go", "apply_binary.go"],
 [("checksum and size verification", "binary_reader.go:binaryReader.Read"), ("base85 validation", "base85.go:base85Decode"), ("delta result size", "apply_binary.go:limitWriter")],
 ["error and output of Parse followed by Apply", "BinaryFragment.Data"])

# ------------------------------------------------------------------ claimed: concurrency, history, life cycle
prop("C11", "Parsed patches can be used by many goroutines at once",
 "Any number of goroutines may apply, format, validate and read the data of the same parsed patch, apply to the same source, and parse or format other patches at the same time: each operation produces exactly the result it produces alone, under every interleaving. None of these operations changes the parsed patch or the source.",
 ["schedules"],
 "all interleavings of concurrent operations over shared and separate patches, sources and streams, including preemption inside I/O and between statements",
 "Every existing test is single-threaded; a schedule cannot be chosen by a unit test.",
 ["apply.go", "apply_text.go", "apply_binary.go", "binary_reader.go", "gitdiff.go", "format.go", "base85.go", "parser.go"],
 [("hunks are copied before sorting", "apply.go:Apply"), ("fresh reader per call", "gitdiff.go:BinaryFragment.Data"), ("read-only package tables", "base85.go:b85Table")],
 ["result of each operation", "deep comparison of the shared patch before and after"])

prop("C12", "Failed, aborted or earlier operations leave no residue",
 "The result of parsing, applying, formatting or reading binary data depends only on that operation's own inputs, never on which operations ran before it in the process. In particular operations that failed from I/O errors, were rejected, were abandoned half-way, or were aborted by a panic in the caller's reader or writer do not alter the result of later operations, or prevent them from finishing; and nothing an operation has returned changes when other operations run later.",
 ["histories", "fault_sequences", "crash_points"],
 "all sequences of operations with faults, rejections, abandonment and aborts at any I/O point",
 "Tests run each operation once, in isolation, and never after a failed one.",
 ["apply.go", "apply_text.go", "apply_binary.go", "binary_reader.go", "parser.go", "base85.go", "format.go"],
 [("per-operation state only", "parser.go:newParser"), ("per-operation buffers", "io.go:copyFrom")],
 ["result of each later operation against its reference result"])

prop("C13", "Appliers follow their life cycle for every sequence of calls",
 "For every sequence of hunk applications and closes on one applier: closing copies everything that follows the last applied hunk (or the whole source if no hunk was given), closing again does nothing, and after closing nothing can be applied or written. Hunks that are invalid, out of order, that reach beyond the end of the source, or that create a file whose source has content are rejected without writing anything and leave the applier as it was; a binary applier accepts at most one fragment. The combined output is always that of the accepted hunks.",
 ["histories", "inputs"],
 "all call sequences on text and binary appliers, with valid, invalid, overlapping, conflicting and repeated fragments",
 "Tests make one call per applier; errors for misuse (closed applier, repeated or overlapping fragments) are not tested.",
 ["apply_text.go", "apply_binary.go"],
 [("closed / in-progress flags", "apply_text.go:TextApplier"), ("single use", "apply_binary.go:BinaryApplier.ApplyFragment")],
 ["error and output of each call"],
 [("closed", "applier was closed", "apply_text.go:TextApplier"), ("dirty", "a fragment was given", "apply_text.go:TextApplier")])

prop("C14", "Retrying after a failed source read gives the right result",
 "If applying a hunk fails because the source could not be read, nothing of the hunk having been consumed, the same hunk can be given to the same applier again. However many reads fail before, once calls succeed the total output is exactly the fault-free result, and once reads stop failing the next try succeeds.",
 ["fault_sequences", "histories"],
 "all sequences of transient source read failures over all sources and multi-hunk patches, with bounded retries",
 "No existing test injects a read error or continues after one.",
 ["apply_text.go", "io.go"],
 [("index keeps only complete lines after a failed read", "io.go:lineReaderAt.indexTo"), ("preimage is read before anything is written", "apply_text.go:TextApplier.ApplyFragment")],
 ["total output", "number of tries"])

# ------------------------------------------------------------------ claimed: hostile conditions
prop("C15", "Binary size limits hold against hostile patches",
 "A binary fragment whose declared content, instruction stream or declared result is larger than the configured limit (100 MiB unless set, none if negative) is refused before anything is written, and one within the limits is not refused because of them. However the fragment's contents disagree with what it declares, the destination never receives more than one byte beyond its declared size, and memory use stays within a small multiple of the declared sizes (plus one maximal copy), so compressed bombs stay harmless.",
 ["inputs", "configurations", "fault_sequences"],
 "all limits, all disagreements between declared and actual sizes, bombs, and destinations that run full",
 "Tests use five fixed fragments and two limits, never the default limit, no bombs, and never look at what was written.",
 ["apply_binary.go", "apply_options.go", "binary_reader.go"],
 [("declared size check", "apply_binary.go:BinaryApplier.ApplyFragment"), ("bounded inflation", "binary_reader.go:binaryReader"), ("bounded output", "apply_binary.go:limitWriter")],
 ["bytes accepted by the destination", "error", "bytes allocated"])

prop("C16", "Corrupted patches never crash, hang or run away",
 "Whatever happens to a patch in transit or at rest (flipped, lost, duplicated, reordered or spliced pieces, truncation, stalls), parsing it, reading its header, validating, formatting and applying what was parsed all return, with a value or an error. They never panic, and the work they do stays bounded by a small multiple of the size of their inputs.",
 ["fault_sequences", "inputs"],
 "all corruption sequences of all patches, delivered by streams that stall and fail, applied to matching and unrelated sources",
 "Tests use well-formed inputs or single hand-made errors; fuzzing covers only the internal base85 codec.",
 ["parser.go", "file_header.go", "text.go", "binary.go", "patch_header.go", "patch_identity.go", "apply_text.go", "apply_binary.go", "format.go"],
 [("bounded look-ahead", "parser.go:parser"), ("chunked preimage reads", "apply_text.go:readPreimage"), ("fragment validation before use", "gitdiff.go:TextFragment.Validate")],
 ["panics", "statements executed per input byte", "I/O calls"])

prop("C17", "Binary data reads the same in any read pattern and ends only if verified",
 "Reading the data of a binary fragment yields the same bytes and the same final verdict for every sequence of read sizes and for any number of independent readers, interleaved or abandoned. End of file is reported only after all of the data, exactly the declared number of bytes, was delivered and its checksum verified; once a verdict was given, further reads repeat an error or end of file and deliver no data.",
 ["schedules", "inputs", "histories"],
 "all sequences of read sizes, all interleavings of several readers, intact and damaged fragments",
 "Tests read each fragment once, with io.ReadAll.",
 ["binary_reader.go", "gitdiff.go"],
 [("limited inflating reader", "binary_reader.go:binaryReader.Read")],
 ["bytes and errors of each read"])

prop("C18", "Patches survive any number of relays, or fail loudly",
 "If a patch is parsed, formatted again and sent on, any number of times, over streams that fail, are cut off inside a file's changes, or split and stall, each receiver obtains either a reported error or exactly the files originally sent; after an error, the files already obtained are exact and repeating the transmission completes the delivery. Applying the delivered files to a copy of the sender's old tree gives the sender's new tree, also if relays put files together from the formatted text of single hunks, lines or binary fragments.",
 ["fault_sequences", "histories", "inputs"],
 "all patches of git-format files (and GNU-format changes of existing files), any number of hops, any faults at each hop, bounded retransmissions",
 "Fourteen fixed patches are formatted and re-parsed once in memory.",
 ["format.go", "parser.go", "file_header.go", "text.go", "binary.go", "base85.go", "apply.go"],
 [("formatter", "format.go:FormatFile"), ("parser", "parser.go:Parse")],
 ["files obtained at every hop", "final tree"])

prop("C19", "Patches mean the same on hosts in different time zones",
 "Parsing a patch date, patch header or GNU diff header that states its time zone or a Unix time denotes the same instant, and yields the same files, whatever local time zone the host has and even if it changes while the program runs. Dates without a zone are taken in the host's local zone, and only those.",
 ["configurations", "schedules"],
 "all host time zones and zone changes at any step between operations, all date formats and instants",
 "The test suite runs with one fixed local zone.",
 ["patch_header.go", "file_header.go"],
 [("zoned layouts", "patch_header.go:ParsePatchDate"), ("epoch comparison by instant", "file_header.go:hasEpochTimestamp")],
 ["instants and files returned on nodes with different local zones"])

prop("C20", "Commit descriptions survive the trip",
 "A patch sent with its commit's description, as git log or show writes it (short, medium, full, fuller) or as a mail by git format-patch, possibly passed on by mail servers (fields added, reordered, folded differently, written in other case, separator line removed), gives every receiver, however the stream delivers it, after any failed transmissions and in any time zone, exactly the commit's id, author, committer and dates as far as the format states them, its title and its body. What the clean mode removes from a mail's subject is kept as the prefix, and what follows a mail's \"---\" line as the appendix. Invalid dates, empty identities and unrecognised descriptions are errors. Identities in any form git knows are read as name and address, and formatting and reading them again, any number of times, changes nothing. (Names outside mails are free of quotation marks and backslashes, bodies are as git's default clean-up leaves them, and titles do not themselves begin like a removable prefix.)",
 ["inputs", "histories", "configurations"],
 "all commits x formats x date formats x subject clean modes x mail relay behaviours x stream behaviours",
 "Tests use some thirty fixed preambles and fifteen identities; folding, encoding, reordering, long lines, scripts and delivery never vary.",
 ["patch_header.go", "patch_identity.go", "parser.go"],
 [("format detection", "patch_header.go:ParsePatchHeader"), ("message scanner", "patch_header.go:scanMessageBody"), ("subject cleaning and decoding", "patch_header.go:cleanSubject"), ("address heuristic", "patch_identity.go:ParsePatchIdentity")],
 ["header and identities each receiver obtains"])

prop("C21", "Hunks and files that contradict themselves are refused",
 "However the hunks a program holds are damaged or edited, validating a hunk reports an error if and only if its old, new, added or deleted line counts or its leading or trailing context disagree with its lines, one of its lines has an unknown operator, or it claims to create a file but has old lines. Applying a hunk that does not validate, or a file whose binary flag, hunks and binary data contradict each other, is refused with an error that is not a conflict, writes nothing, and leaves the applier as it was. Every hunk returned by successful parsing, however damaged the patch, has counts that agree with its lines.",
 ["inputs", "histories"],
 "all damage to the fields and lines of hunks and to file descriptions, in memory and in transit",
 "Tests modify one fixed fragment in nine ways and never look at what an applier did with it.",
 ["gitdiff.go", "apply.go", "apply_text.go", "text.go"],
 [("recount", "gitdiff.go:TextFragment.Validate"), ("file checks", "apply.go:Apply"), ("counting while parsing", "text.go:ParseTextChunk")],
 ["Validate result", "errors and bytes written when applying"])

prop("C22", "A patch damaged into something no patch contains is refused",
 "If damage turns one line of a well-formed patch into something no patch can contain in that place, parsing reports an error, and the files before the damaged one are returned complete and correct. Such damage is: a mode or similarity score that is no number or negative; object ids without a separator; a file name that is missing, wrongly quoted, or contradicts the rest of the header (another name after a rename, copy, creation or deletion announced one, a name where a new or deleted file must have /dev/null, different names without a rename); a hunk range that is no number or has a sign, or a hunk header in pieces; a hunk whose line counts are larger than or contradict its lines, with a line of unknown operator, without changes, without its header before another hunk, or without the header of its file; common lines in a created or deleted file; a binary size or method that is none, binary data lines with a wrong length or foreign characters, or not ended by an empty line.",
 ["inputs"],
 "all well-formed patches x all such damage x all stream behaviours",
 "Tests hold some forty fixed malformed lines, each alone; combinations with other files, formats, positions and streams never vary.",
 ["file_header.go", "text.go", "binary.go", "base85.go", "parser.go"],
 [("git header lines", "file_header.go:parseGitHeaderData"), ("name checks", "file_header.go:verifyGitHeaderName"), ("hunk headers and bodies", "text.go:ParseTextChunk"), ("binary data", "binary.go:ParseBinaryChunk")],
 ["error of Parse", "files returned with it"])

prop("C23", "An error about a patch names the line that is wrong",
 "When parsing refuses a patch, the error gives the number of the line, counted from 1 at the beginning of the input including any text before the first file, where the patch is wrong: a header line, hunk range, line operator, name, mode, score, binary size or data line that cannot be read or contradicts the lines before it is named itself; a hunk whose counts disagree with its lines is named by its header or by the first line that cannot belong to it; what shows only at the end of a header or hunk is named by a line from the damage up to the line after that header or hunk; and the error about a patch that is cut off names the header of the unfinished hunk, the last line, or the one after it. This holds for every length of the input and every way the stream delivers it.",
 ["inputs"],
 "all damage of C22 and all cut-off patches x any number of lines in front x all stream behaviours",
 "Tests only ask whether an error is returned; no test looks at the line number of any error.",
 ["parser.go", "file_header.go", "text.go", "binary.go"],
 [("line counter and read-ahead", "parser.go:parser.Next"), ("error position", "parser.go:parser.Errorf"), ("hunk header position", "text.go:ParseTextChunk")],
 ["line number in the error of Parse"])

# ------------------------------------------------------------------ listed, not simulation targets
prop("N03", "Everything git apply accepts is accepted with the same meaning",
 "Apart from the documented differences, every patch git apply accepts is accepted, and describes the same change, as git apply sees it.",
 ["inputs"], "all byte strings git apply accepts", "Tests use fixed examples; git itself is never consulted.",
 ["parser.go", "file_header.go", "text.go", "binary.go"], [("translation of apply.c", "parser.go:Parse")], ["Parse result against git's"])
prop("N04", "Formatting a patch git wrote reproduces git's text",
 "Formatting a file parsed from a patch in git's own format gives back the text git wrote, byte for byte, apart from documented abbreviations.",
 ["inputs"], "all patches git can write", "Fourteen fixed patches are compared.",
 ["format.go"], [("formatter", "format.go:FormatFile")], ["String() against the original text"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
