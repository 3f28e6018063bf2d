#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the source of truth for property texts is this file).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=observe, hook_needed=hook)))

DIFF=["src/diff/mod.rs","src/diff/myers.rs","src/diff/cleanup.rs","src/range.rs","src/utils.rs"]

prop("D01","A created patch turns the original into the modified text",
 "For any two texts and any context length, applying the patch created from them to the original succeeds and yields exactly the modified text, byte for byte. This holds whatever the lines contain, whatever ends them, with or without a final newline, and for the UTF-8 and the raw-byte interface alike.",
 ["inputs","configurations"],"all pairs of texts (str and bytes), all context lengths",
 "The suite round-trips about ten hand-written pairs with context lengths 0, 1 and 3; repeated lines, zero context, near-equal lines, long files and odd terminators are not sampled.",
 DIFF+["src/apply.rs"],
 [("Myers divide and conquer","src/diff/myers.rs: find_middle_snake, conquer"),("edit compaction","src/diff/cleanup.rs: compact"),("hunk building","src/diff/mod.rs: to_hunks, calc_end, build_edit_script"),("hunk placement","src/apply.rs: find_position, match_fragment, apply_hunk"),("line classification","src/utils.rs: Classifier, LineIter")],
 ["create_patch / create_patch_bytes / DiffOptions","apply / apply_bytes"])

prop("D02","Hunks of a created patch describe the two texts truthfully",
 "Every hunk of a created patch states line ranges that are the true positions (unified-diff numbering) of its lines in the two texts, its context, deleted and inserted lines are exactly the lines found there, and everything outside the hunks is identical in both texts. Hunks are in order and do not overlap, each contains at least one change, and two equal texts give a patch without hunks.",
 ["inputs","configurations"],"all pairs of texts, all context lengths",
 "Tests compare a few expected patches; a wrong line number, a context line taken from the wrong place or a stray hunk in an unsampled shape still applies cleanly because apply searches for a match.",
 DIFF+["src/patch/mod.rs"],
 [("hunk building","src/diff/mod.rs: to_hunks, calc_end, build_edit_script"),("range length assertion","src/patch/mod.rs: Hunk::new"),("edit compaction keeps ranges contiguous","src/diff/cleanup.rs"),("range arithmetic","src/range.rs")],
 ["Patch::hunks, Hunk::old_range/new_range/lines, HunkRange"])

prop("D03","A created patch is a shortest edit script",
 "The total number of deleted and inserted lines in a created patch is the smallest possible for the two texts, lines counting as equal only when they are byte-identical including their terminator.",
 ["inputs","configurations"],"all pairs of texts",
 "Minimality is a statement about every other edit script; the suite pins the output for a handful of pairs and never computes an edit distance.",
 DIFF,
 [("middle snake search finds an optimal split","src/diff/myers.rs: find_middle_snake, max_d"),("compaction preserves the number of edits","src/diff/cleanup.rs"),("line identity","src/utils.rs: Classifier")],
 ["count of Line::Delete and Line::Insert in Patch::hunks"])

prop("D04","Hunks carry exactly the requested context",
 "Each hunk has exactly the requested number of unchanged lines before its first change and after its last one, fewer only where the text begins or ends; changes separated by fewer than twice that number of unchanged lines share a hunk and changes separated by more do not. The context length affects nothing else: the deleted and inserted lines are the same for every context length.",
 ["inputs","configurations"],"all pairs of texts, all context lengths including 0 and very large ones",
 "Three context lengths are tested on one pair; the merge-or-split decision and the clamping at both ends depend on distances between edits that are never enumerated.",
 ["src/diff/mod.rs"],
 [("context clamping","src/diff/mod.rs: calc_end, saturating_sub in to_hunks"),("hunk merging","src/diff/mod.rs: to_hunks inner loop")],
 ["DiffOptions::set_context_len","Patch::hunks"])

prop("D05","Changes are shown in one canonical place",
 "Where a change could be shown in several equivalent places, because the lines around it repeat, a created patch shows it in a settled one: in every run of changed lines the deletions stand before the insertions, and each block of deletions or insertions lies as low as it can, that is, its first line differs from the unchanged line that follows the run. This holds for every context length and for both interfaces.",
 ["inputs","configurations"],"all pairs of texts",
 "Where blocks end up depends on all the repetitions around them; the suite shows the shifting on a few hand-made lists and compares a few patches.",
 DIFF,
 [("shifting and joining blocks","src/diff/cleanup.rs: compact, shift_diff_up, shift_diff_down"),("changes grouped in runs","src/diff/mod.rs: build_edit_script, to_hunks")],
 ["Patch::hunks","Hunk::lines"])

prop("R01","Reversing a patch undoes it",
 "The reverse of a created patch, applied to the modified text, yields exactly the original text, at every context length. Reversing swaps the file names, the two ranges of every hunk and the roles of deleted and inserted lines and changes nothing else, so reversing any patch twice gives an equal patch.",
 ["inputs","configurations"],"all pairs of texts, all context lengths; all created and parsed patches",
 "Two pairs are reversed in the suite, both with default context; hunks that only insert (and so only delete when reversed) without context are not reached.",
 ["src/patch/mod.rs","src/apply.rs"],
 [("patch reversal","src/patch/mod.rs: Patch::reverse, Hunk::reverse, Line::reverse"),("hunk placement by new range","src/apply.rs: find_position")],
 ["Patch::reverse","apply / apply_bytes"])

prop("F01","Writing a patch and parsing it back gives an equal patch",
 "Any patch that was created, reversed or parsed, when written as text (default settings, or with blank-line suppression on or off) and parsed again, gives a patch equal to the one written. This includes file names with quotes, backslashes, tabs, line breaks or NUL, function context after the hunk header, lines that look like patch syntax, non-UTF-8 bytes and missing final newlines.",
 ["inputs","configurations"],"all created/reversed/parsed patches, all file names, both text types, both blank-line settings",
 "The suite re-parses its ten expected outputs, all with plain names and none with function context; parse tests never print what they parsed.",
 ["src/patch/format.rs","src/patch/parse.rs","src/patch/mod.rs","src/utils.rs"],
 [("rendering","src/patch/format.rs: PatchDisplay, HunkDisplay, LineDisplay"),("file name quoting","src/patch/mod.rs: Filename::write_into and Display"),("parser","src/patch/parse.rs")],
 ["Display for Patch, Patch::to_bytes, PatchFormatter","Patch::from_str / from_bytes"])

prop("F02","The written form is exactly the unified format of the patch",
 "The text written for a patch is determined by its visible content: a --- and a +++ line for the names it has, one @@ header per hunk with both ranges (a length of one left out) and the function context if any, then every line with its sign, followed by the no-newline marker exactly when the line has no newline. Formatter options change only what they document: colour only adds terminal escape sequences, all closed by the end, blank-line suppression only drops the space before empty context lines, and turning the marker off only removes the marker. The Display form and the byte writer produce the same bytes.",
 ["inputs","configurations"],"all patches, all eight combinations of formatter options, both output paths",
 "A few expected outputs are compared with default options; colour is only exercised in a doc example whose output is not checked, and option combinations are not.",
 ["src/patch/format.rs","src/patch/mod.rs"],
 [("rendering (two parallel implementations)","src/patch/format.rs"),("range rendering","src/patch/mod.rs: Display for HunkRange"),("file name rendering (two implementations)","src/patch/mod.rs: Filename")],
 ["PatchFormatter::fmt_patch, write_patch_into","Patch::to_bytes, Display"])

prop("F03","A failing or slow writer never loses or corrupts output silently",
 "When a patch is written to a writer that accepts only part of each write, is interrupted, or fails at any point, either the complete output arrives and success is returned, or the writer's own error is returned and what arrived is a prefix of the complete output.",
 ["fault_sequences","inputs","configurations"],"every position of an error, zero-length write, short write or interruption in the output, for any patch and formatter options",
 "The suite only writes into an in-memory vector, which never fails or writes short.",
 ["src/patch/format.rs","src/patch/mod.rs"],
 [("error propagation with ?","src/patch/format.rs: write_into of patch, hunk and line"),("write_all instead of write","src/patch/format.rs, src/patch/mod.rs: Filename::write_into")],
 ["PatchFormatter::write_patch_into with an instrumented io::Write"])

prop("P01","Well-formed patches are parsed faithfully",
 "Parsing a well-formed single-file unified diff succeeds and yields exactly what it says: the file names (without timestamp; in quoted names, escapes by letter or by three octal digits are resolved), and for each hunk the two ranges, the function context and every context, deleted and inserted line in order, with the newline removed from lines marked as lacking it. Leading text before the file header, missing file names, omitted range lengths, suppressed blanks on empty context lines and timestamps are accepted.",
 ["inputs"],"all well-formed single-file unified diffs, as str and as bytes",
 "Parse tests unwrap the result of a few patches without looking at hunks; line contents, function context and ranges of parsed patches are not compared except for diffy's own output.",
 ["src/patch/parse.rs","src/utils.rs"],
 [("header and preamble handling","src/patch/parse.rs: patch_header, skip_header_preamble, parse_filename"),("hunk parsing","src/patch/parse.rs: hunk, hunk_header, range, hunk_lines")],
 ["Patch::from_str / from_bytes and the accessors of Patch, Hunk, HunkRange, Line"])

prop("P02","Patches that contradict themselves are rejected",
 "Text whose hunk headers disagree with the number of lines that follow, whose hunks are out of order or overlap, whose ranges are not representable numbers, whose file header is duplicated or wrongly quoted, or whose hunk body contains lines that cannot belong there (unknown sign, a marker without a line, lines continuing a side already ended by the marker) is rejected with an error. Whatever is accepted satisfies these rules and contains every line of the input's hunks.",
 ["inputs"],"all texts and byte strings, in particular single corruptions of well-formed patches",
 "Four hand-written invalid file headers are tested; no test has a wrong count, overlapping hunks, a misplaced marker or an overflowing range.",
 ["src/patch/parse.rs"],
 [("count check","src/patch/parse.rs: hunk"),("order check","src/patch/parse.rs: verify_hunks_in_order"),("body line validation","src/patch/parse.rs: hunk_lines, strip_newline"),("name validation","src/patch/parse.rs: unescaped_filename, escaped_filename"),("range arithmetic","src/patch/parse.rs: range; src/patch/mod.rs: HunkRange::end")],
 ["Patch::from_str / from_bytes"])

prop("A01","Applying a patch changes only exactly matching places",
 "If applying a patch to a base text succeeds, the result is the base in which each hunk's context and deleted lines were found as identical consecutive lines and replaced by its context and inserted lines, and every other line is unchanged and in order. No base line is consumed by two hunks and lines put in by one hunk are never matched by another.",
 ["inputs","histories"],"all base texts and all patches, including patches made for a different or shifted base",
 "Apply tests use the base the patch was made for, or one shifted example; near-matching context, overlapping candidates and multi-hunk drift are not sampled.",
 ["src/apply.rs"],
 [("exact fragment match","src/apply.rs: match_fragment"),("patched-line tracking","src/apply.rs: ImageLine"),("splice","src/apply.rs: apply_hunk")],
 ["apply / apply_bytes result"])

prop("A02","Hunks go to the nearest matching place and fail only without one",
 "Hunks are applied in sequence, each at the matching place nearest to the line its header gives in the resulting text, even if that line is far away or beyond the end of the base. Applying fails exactly when some hunk has no matching place left, and the error names the first such hunk.",
 ["inputs","histories"],"all base texts and all patches with right, shifted or absurd line numbers",
 "One doc example and one test use a wrong line number; the order of the search, its ends and the reported hunk number are not pinned by any test.",
 ["src/apply.rs"],
 [("outward search","src/apply.rs: find_position, interleave"),("clamping","src/apply.rs: find_position"),("error numbering","src/apply.rs: apply, apply_bytes")],
 ["apply / apply_bytes result and ApplyError text"])

prop("M01","Merging with an unchanged or identical side is exact",
 "Merging never conflicts when one side is unchanged or both sides are the same: if one side equals the ancestor the result is exactly the other side, and if both sides are equal the result is exactly that side.",
 ["inputs"],"all ancestor/side texts, str and bytes",
 "The suite has three such cases over one seven-line text.",
 ["src/merge/mod.rs"]+DIFF,
 [("three-way alignment","src/merge/mod.rs: merge_solutions"),("chunking","src/merge/mod.rs: diff3_range_to_merge_range, create_merge_range, set_or_merge_range"),("conflict elimination","src/merge/mod.rs: cleanup_conflicts")],
 ["merge / merge_bytes / MergeOptions::merge"])

prop("M02","A clean merge contains every change and nothing else",
 "When merging reports no conflict, the three inputs and the result split into aligned sections such that in each section the result takes the side that differs from the ancestor, or the common text when both sides agree, and sections with a change are separated by lines common to all three. No side's insertion, deletion or modification is dropped, duplicated or reordered, and no line appears that no input contributed.",
 ["inputs"],"all triples of texts, str and bytes",
 "Two clean merges are compared with expected output; issue 28 (conflicts silently omitted) and issue 9 (wrong range used) were both missed by the suite of their time.",
 ["src/merge/mod.rs"]+DIFF,
 [("three-way alignment","src/merge/mod.rs: merge_solutions"),("chunking","src/merge/mod.rs: diff3_range_to_merge_range"),("conflict elimination","src/merge/mod.rs: cleanup_conflicts"),("output by range","src/merge/mod.rs: output_result, output_result_bytes")],
 ["merge / merge_bytes Ok value"])

prop("M03","Conflicts are genuine and show the true competing texts",
 "When merging reports a conflict, the output contains at least one conflict block; each block shows the exact texts of ours, the ancestor and theirs for the same section, pairwise different, and everything outside the blocks is merged as in a clean merge. Replacing nothing but the blocks, each input's lines are all accounted for in order.",
 ["inputs"],"all conflicting triples of texts, str and bytes",
 "Six conflicting triples have expected outputs; what a block must contain when edits overlap, touch or share lines is not stated or checked elsewhere.",
 ["src/merge/mod.rs"]+DIFF,
 [("chunking","src/merge/mod.rs: diff3_range_to_merge_range, create_merge_range"),("conflict elimination","src/merge/mod.rs: cleanup_conflicts"),("conflict rendering","src/merge/mod.rs: output_result, output_result_bytes")],
 ["merge / merge_bytes Err value in the three-section style"])

prop("M04","Edits to different regions merge; overlapping ones conflict",
 "For an ancestor whose lines are all distinct, changes by the two sides to regions separated by at least one untouched line merge without conflict into the text with both changes, and different changes to touching or overlapping regions produce exactly one conflict block per region, bounded by the nearest lines that all three texts share. Identical changes on both sides merge silently.",
 ["inputs"],"all assignments of insertions, deletions and replacements to regions of an ancestor with distinct lines",
 "Which of the many interleavings of two sides' insertions and deletions is a conflict is sampled by a handful of triples only.",
 ["src/merge/mod.rs"]+DIFF,
 [("three-way alignment","src/merge/mod.rs: merge_solutions"),("chunk boundaries at lines equal in all three","src/merge/mod.rs: diff3_range_to_merge_range"),("conflict elimination","src/merge/mod.rs: cleanup_conflicts")],
 ["merge / merge_bytes result, compared with the merge known by construction"])

prop("M05","Merge options only change how conflicts are displayed",
 "Conflict style and marker length never change whether a merge conflicts nor a clean result. In a conflicting result every marker stands on a line of its own, repeated as many times as configured and labelled ours, original or theirs, and the two-section style is the three-section style without the ancestor section, for both the UTF-8 and the byte interface.",
 ["inputs","configurations"],"all triples of texts, both styles, all marker lengths, inputs with and without final newline",
 "All tests use the default style and length and inputs that end in a newline.",
 ["src/merge/mod.rs"],
 [("marker output","src/merge/mod.rs: add_conflict_marker, add_conflict_marker_bytes"),("style handling","src/merge/mod.rs: output_result, output_result_bytes")],
 ["MergeOptions::set_conflict_style, set_conflict_marker_length, merge, merge_bytes"])

prop("M06","Merging is symmetric in the two sides",
 "Exchanging the two sides of a merge does not change whether it conflicts: a clean result stays the same, and a conflicting result differs only in that the two sides of every conflict block are exchanged.",
 ["inputs"],"all triples of texts",
 "The suite mirrors three triples; the code treats the sides asymmetrically (ours is consumed first).",
 ["src/merge/mod.rs"],
 [("three-way alignment","src/merge/mod.rs: merge_solutions"),("chunking","src/merge/mod.rs: create_merge_range"),("conflict elimination order","src/merge/mod.rs: cleanup_conflicts")],
 ["merge / merge_bytes"])

prop("S01","UTF-8 and byte interfaces agree",
 "On valid UTF-8 input every operation has the same outcome through the text and the byte interface: created patches have the same hunks and the same written form under every formatter setting, parsing accepts the same texts with the same content (except that only the byte interface can hold file names whose octal escapes spell no UTF-8), and applying, reversing and merging give the same bytes or fail alike.",
 ["inputs","configurations"],"all valid UTF-8 inputs, all options",
 "The two interfaces have separate implementations of searching, splitting, writing, quoting and conflict output; tests compare them on the same few samples only.",
 ["src/utils.rs","src/patch/format.rs","src/patch/mod.rs","src/patch/parse.rs","src/merge/mod.rs","src/apply.rs","src/diff/mod.rs"],
 [("two implementations of text operations","src/utils.rs: Text for str and [u8], find_bytes"),("two renderers","src/patch/format.rs"),("two conflict writers","src/merge/mod.rs: output_result, output_result_bytes"),("two apply loops","src/apply.rs: apply, apply_bytes")],
 ["all public functions in both variants"])

prop("S02","No input makes the library panic, overflow or touch bad memory",
 "Parsing, creating, writing, reversing, applying, merging and inspecting never panic, overflow an integer, exhaust the stack or access memory wrongly, for any text or bytes and any option values, including hostile patches. Bad input is reported through the documented error results.",
 ["inputs","configurations"],"all byte strings, all option values, every sequence of public operations on the results",
 "Tests pass well-formed inputs; the code indexes, slices, subtracts and asserts in many places whose safety depends on relations between values from untrusted input.",
 ["src/patch/parse.rs","src/patch/mod.rs","src/apply.rs","src/diff/mod.rs","src/diff/myers.rs","src/diff/cleanup.rs","src/merge/mod.rs","src/range.rs","src/utils.rs"],
 [("error results in the parser","src/patch/parse.rs"),("range arithmetic and assertions","src/range.rs, src/patch/mod.rs: Hunk::new, HunkRange::end"),("bounds and asserts in the diff","src/diff/myers.rs, src/diff/cleanup.rs"),("asserts and unreachable in the merge","src/merge/mod.rs: merge_solutions, set_or_merge_range"),("clamped search","src/apply.rs: find_position")],
 ["every public function under overflow checks, debug assertions, AddressSanitizer and Miri"])

prop("S03","Results depend only on the arguments",
 "Every operation is a function of its arguments: repeating it, running it after or between any other operations, in another thread, concurrently with other calls on the same or other data, from inside the writer another call is writing to, after a writer failed or panicked, or in another process gives the same result, without data races.",
 ["histories","schedules","inputs"],"all sequences and concurrent interleavings of operations, all threads and processes",
 "Each test calls an operation once on fresh data; hash seeds, reused buffers, caches and shared state only show across calls, threads and processes.",
 ["src/utils.rs","src/diff/mod.rs","src/diff/myers.rs","src/merge/mod.rs","src/apply.rs","src/patch/format.rs"],
 [("line ids independent of hash order","src/utils.rs: Classifier"),("work arrays owned per call","src/diff/myers.rs: diff, V"),("no shared mutable state","whole crate")],
 ["digest of every result, compared across orders, threads and processes; ThreadSanitizer and Miri reports"])

prop("S04","Work and memory stay bounded by the input",
 "Parsing and writing take work and memory proportional to their input and output; creating a patch takes work bounded by the number of lines times the number of differences, merging likewise, and applying a hunk is bounded by base length times hunk length, no matter what line numbers or lengths the patch claims. Recursion depth stays small enough for ordinary thread stacks.",
 ["inputs","configurations"],"all inputs, in particular adversarial ones: huge line numbers, long runs of equal lines, files with nothing in common",
 "One test times one wrong line number on a six-line file; growth over input size is never measured.",
 ["src/apply.rs","src/diff/myers.rs","src/diff/cleanup.rs","src/patch/parse.rs","src/utils.rs","src/merge/mod.rs"],
 [("search clamped to the image","src/apply.rs: find_position"),("linear-space divide and conquer","src/diff/myers.rs"),("single pass compaction","src/diff/cleanup.rs"),("line iteration","src/utils.rs: LineIter")],
 ["executed control-flow edges and allocated bytes per call (compiler-inserted counters)"])

prop("S05","Patches interoperate with GNU diffutils, GNU patch and git",
 "A patch written by the library is applied by GNU patch and git to the original with exactly the modified text as result, and unified diffs produced by GNU diff or git for a single file are parsed and, applied to the original, give exactly the modified text, with any context length, function context, missing final newlines, blank-line suppression and any file name; the names are read as they are.",
 ["inputs","configurations"],"all pairs of text files and the tools' unified output options",
 "One hand-copied git patch is parsed in the suite; no test runs another tool.",
 ["src/patch/format.rs","src/patch/parse.rs","src/diff/mod.rs","src/apply.rs"],
 [("unified format writer","src/patch/format.rs"),("unified format parser","src/patch/parse.rs"),("line numbering of empty ranges","src/diff/mod.rs: to_hunks"),("hunk placement","src/apply.rs: find_position")],
 ["exit status and output of diff, patch and git run on the same files"])

prop("A03","Patches survive edits elsewhere",
 "If lines are inserted, deleted or changed only outside the context and changed lines of a patch's hunks, and the lines of those hunks stand nowhere else in the text, the patch still applies and makes exactly its own changes, however far its lines have moved; undoing it then gives back the edited text, and the result is that of merging the two sets of changes.",
 ["inputs","histories"],"all texts without repeated lines, all patches between two of them with a non-empty old side in every hunk, all sets of edits elsewhere",
 "The suite applies patches with one wrong line number; shifts that differ between the hunks of one patch, that shrink the text below the stated line, or that are large are not tried.",
 ["src/apply.rs","src/patch/mod.rs","src/merge/mod.rs"],
 [("search in both directions from the stated line","src/apply.rs: find_position"),("image kept between hunks","src/apply.rs: apply_hunk"),("reversal","src/patch/mod.rs: Patch::reverse"),("three-way alignment","src/merge/mod.rs: merge_solutions")],
 ["apply / apply_bytes","Patch::reverse","merge / merge_bytes"])

prop("O01","Options hold what was last set and nothing else",
 "A created patch carries exactly the file names last set (original and modified by default), its hunks follow the context length last set (3 by default), a formatter writes as its flags were last set, and a merge uses the style and marker length last set (three sections, 7). The order of settings, other options, and earlier uses of the same object have no influence, and the functions without options behave like the defaults.",
 ["configurations","histories"],"all sequences of option settings and uses, all option values, all inputs",
 "Each test sets at most one option once and uses the object once; lost updates, settings that influence each other, and differing defaults between new, default and the free functions are not looked for.",
 ["src/diff/mod.rs","src/patch/format.rs","src/merge/mod.rs"],
 [("builder state","src/diff/mod.rs: DiffOptions"),("formatter flags","src/patch/format.rs: PatchFormatter"),("merge settings","src/merge/mod.rs: MergeOptions"),("free functions","src/diff/mod.rs: create_patch, create_patch_bytes; src/merge/mod.rs: merge, merge_bytes")],
 ["DiffOptions, PatchFormatter, MergeOptions and the free functions"])

prop("V01","Patches are values: equality and copies follow the content",
 "Two patches are equal exactly when all they show is equal: names, and for each hunk ranges, function context and lines; likewise for hunks, ranges and lines. This holds across patches made in different ways (created, parsed, reversed, cloned). A clone equals its source and outlives it; a hunk reversed on its own equals the hunk of the reversed patch; the accessors of a range agree with one another.",
 ["inputs","histories"],"all pairs of patches however obtained",
 "Tests compare patches that should be equal and a patch with itself; that unequal patches compare unequal, for every field, is what the other tests silently rely on.",
 ["src/patch/mod.rs","src/patch/parse.rs","src/diff/mod.rs"],
 [("derived equality","src/patch/mod.rs: Patch, Filename, Hunk, HunkRange, Line"),("hand-written Clone","src/patch/mod.rs"),("reversal of hunks and lines","src/patch/mod.rs: Hunk::reverse, Line::reverse"),("range accessors","src/patch/mod.rs: HunkRange")],
 ["PartialEq, Clone and accessors of Patch, Hunk, HunkRange, Line"])

prop("H01","Stored patches replay a history forward and backward",
 "For any sequence of versions, the patches between neighbours, written as text in any non-lossy format setting through either interface and read back later, reproduce every version in turn from the first and, reversed, every version in turn from the last.",
 ["inputs","histories","configurations"],"all sequences of texts, all context lengths, either interface at either end, reverses stored or computed",
 "Tests go through one operation at a time from a hand-made starting point; errors that cancel within one round trip, or need the writer, parser, reversal and application together, escape them.",
 ["src/diff/mod.rs","src/patch/format.rs","src/patch/parse.rs","src/patch/mod.rs","src/apply.rs"],
 [("writer","src/patch/format.rs"),("parser","src/patch/parse.rs"),("reversal","src/patch/mod.rs: Patch::reverse"),("hunk placement","src/apply.rs: find_position")],
 ["create_patch, PatchFormatter, Patch::from_str / from_bytes, Patch::reverse, apply and their byte variants"])

prop("S06","Operations have no side effects",
 "Creating, parsing, reversing, comparing, writing, applying and merging touch nothing but their arguments and results: nothing is printed and no file, environment variable, clock, thread, process or socket is used, whether the operation succeeds or reports an error; only the writer handed in receives output.",
 ["inputs","configurations"],"all inputs of every public operation, accepted and rejected",
 "Tests look at return values; a leftover debug print, a switch read from the environment or a time limit on a rare path changes none of them.",
 ["src/diff/mod.rs","src/diff/myers.rs","src/diff/cleanup.rs","src/merge/mod.rs","src/apply.rs","src/patch/parse.rs","src/patch/format.rs","src/patch/mod.rs","src/utils.rs"],
 [("diff and options","src/diff/mod.rs"),("merge","src/merge/mod.rs"),("application","src/apply.rs"),("parser","src/patch/parse.rs"),("writer","src/patch/format.rs: PatchFormatter")],
 ["calls of the C library's input, output, environment, clock, thread, process and socket functions made during a call"])

prop("S07","Memory is given back",
 "Once its results are dropped, an operation leaves no memory in use: repeating any operation, on the same or on ever new inputs and whether it succeeds, reports an error or has its writer fail, does not make memory in use grow.",
 ["histories","inputs"],"all sequences of operations whose results have been dropped",
 "Every test is a short process that ends after a few calls, and safe code leaks silently: forgotten values, reference cycles and caches that only grow need repetition and a count of allocated bytes.",
 ["src/utils.rs","src/diff/mod.rs","src/diff/myers.rs","src/merge/mod.rs","src/apply.rs","src/patch/parse.rs","src/patch/format.rs"],
 [("line classifier owned per call","src/utils.rs: Classifier"),("work arrays owned per call","src/diff/myers.rs: V"),("unescaped names owned by the patch","src/patch/parse.rs"),("image dropped after use","src/apply.rs")],
 ["bytes allocated and not yet freed after each repetition"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
