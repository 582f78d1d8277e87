#!/usr/bin/env python3
# One-off generator for properties.jsonl (kept so that the text is edited in one place).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Acknowledged patch output is complete and exact on any sink",
"When writing a patch to a caller-supplied byte writer or text sink reports success, the sink has accepted, in order and exactly once, the complete unified-diff rendering of that patch under the chosen formatting options, however the sink shortened, interrupted or delayed the individual writes. The byte-writer form, the text form and the to-bytes form of one patch under one set of options deliver the same bytes. Colour only adds terminal escape sequences to that rendering.",
["fault_sequences","schedules","inputs","configurations"],
"every patch and formatting configuration; every sequence of short writes, EINTR-style interruptions and stalls the sink may answer with; every interleaving of several writers sharing the patch and the formatter",
"The tests only render into a String or a Vec<u8>, sinks that accept everything at once; not one short or interrupted write is ever exercised.",
["src/patch/format.rs","src/patch/mod.rs"],
[("write_patch_into / write_into chain over io::Write (write_all, write_fmt)","src/patch/format.rs"),("Display impls of PatchDisplay/HunkDisplay/LineDisplay","src/patch/format.rs"),("Filename::write_into and Display escaping","src/patch/mod.rs")],
observe=["bytes accepted by the sink","return value of the write call"])

p("C02","A failing sink is reported and has received only a prefix",
"If the sink fails at any point while a patch is being written (an I/O error of any kind, refusing to accept bytes, running full, a text-sink error, a panic), the write does not report success: a byte writer's error comes back with the sink's own error kind, and a panic propagates. Nothing more is sent to the sink after that failure, and what it accepted is exactly a prefix of the complete rendering. The patch and the formatter stay usable, so a retry on a healthy sink delivers the complete rendering.",
["fault_sequences","crash_points","inputs","configurations"],
"every patch, every formatting configuration, every position and kind of sink failure, every number of failed attempts before a healthy one",
"No test injects a failure into a sink; every error path of the rendering code is unexecuted by the suite.",
["src/patch/format.rs","src/patch/mod.rs"],
[("every write!/write_all in the rendering code propagates with ?","src/patch/format.rs"),("Filename::write_into propagates","src/patch/mod.rs")],
observe=["bytes accepted by the sink","calls the sink sees after it failed","returned error kind"])

p("C03","A stored patch reads back equal and reproduces both texts",
"A patch created from two texts, under any context length and any file names, whose rendering (with blank context lines suppressed or not) was acknowledged by the store or transport it was written to, reads back as an equal patch on every node, however many relay nodes parsed and re-rendered it on the way. Applied to the original text the patch read back yields exactly the modified text, and its reverse turns the modified text back into exactly the original. This holds for texts with or without a final newline and whether each node uses the text or the byte API.",
["fault_sequences","crash_points","inputs","configurations"],
"all pairs of texts, file names and context lengths; every interleaving of write faults, retries, crashes before and after acknowledgement, and message loss, duplication and reordering between author, relays and readers",
"A handful of fixed pairs are rendered into memory, parsed and applied; no file name that needs escaping is ever rendered, context length 0 is sampled once, reverse twice, and no write ever fails in between.",
["src/diff/mod.rs","src/diff/myers.rs","src/diff/cleanup.rs","src/patch/format.rs","src/patch/parse.rs","src/patch/mod.rs","src/apply.rs","src/utils.rs"],
[("to_hunks builds hunks whose line numbers and contents describe the edit","src/diff/mod.rs"),("myers::diff + cleanup::compact produce a valid edit script","src/diff/myers.rs, src/diff/cleanup.rs"),("rendering and parsing are inverse","src/patch/format.rs, src/patch/parse.rs"),("find_position tries the stated position first","src/apply.rs"),("Patch::reverse","src/patch/mod.rs")],
observe=["parsed patch == created patch","apply results"])

p("C04","A torn patch file is never misread",
"If writing a patch is cut off after any number of bytes, parsing what was written is either rejected or yields a patch consisting of leading hunks of the original one, each identical to the original hunk. The only permitted difference is in the very last line of the last hunk, when the cut fell inside or directly after the text of that line. No cut makes parsing or applying the remains panic.",
["crash_points","inputs"],
"every patch and every byte offset at which the writer or its device may crash",
"The tests parse only complete patches; no truncated one is ever given to the parser.",
["src/patch/parse.rs","src/patch/format.rs"],
[("hunk(): line counts of the body are checked against the header","src/patch/parse.rs"),("parse_filename requires a terminated line","src/patch/parse.rs"),("rendering is append-only, header before hunks in order","src/patch/format.rs")],
observe=["Patch::from_str/from_bytes on each prefix"])

p("C05","A damaged patch never panics and is never misrepresented",
"For a stored patch damaged in any way (flipped, lost, zeroed, duplicated or exchanged bytes, lines or blocks, altered line numbers, several files run together), parsing, re-rendering, reversing and applying it never panic. A patch that parsing accepts states exactly what the stored text says: every line of the text after the preamble is accounted for by the file names and hunks, each hunk has as many old and new lines as its header states, hunks are in order and do not overlap, and re-rendering and re-parsing it gives an equal patch. The text and the byte parser accept and reject the same damage and see the same patch.",
["fault_sequences","inputs"],
"every stored patch and every sequence of storage damage to it",
"Four malformed header samples are tested; damage to hunk bodies, line numbers and block structure is not.",
["src/patch/parse.rs","src/patch/mod.rs","src/patch/format.rs","src/apply.rs","src/utils.rs"],
[("Parser, hunk_header, hunk_lines, verify_hunks_in_order","src/patch/parse.rs"),("escaped_filename / unescaped_filename","src/patch/parse.rs"),("Text for str and [u8]","src/utils.rs")],
observe=["panics","accept/reject","public accessors of the accepted patch"])

p("C06","Damage cannot make an operation run away",
"Parsing, rendering, reversing or applying a patch finishes within a number of execution steps and an amount of memory bounded by the sizes of the patch and the document alone, whatever line numbers, counts or other content storage damage has left in it. Writing to a sink that interrupts or shortens a finite number of writes finishes within a number of sink calls bounded by the size of the rendering plus the number of such faults. Creating a patch and merging finish within steps bounded by the square of the combined text sizes.",
["fault_sequences","inputs"],
"every damaged patch and every document it is applied to; every finite fault sequence of a sink; steps are counted on a simulated clock that ticks at every basic block",
"One fixed patch with one oversized line number is timed with a wall clock; other numbers, the parser, the renderer and faulty sinks are not.",
["src/apply.rs","src/patch/parse.rs","src/patch/format.rs","src/diff/myers.rs","src/merge/mod.rs"],
[("find_position clamps the start and bounds both search directions by the document","src/apply.rs"),("line counts come from the body, never allocated from the header","src/patch/parse.rs"),("common prefix/suffix trimming, bounded D loop","src/diff/myers.rs")],
observe=["simulated step count","peak bytes allocated","sink calls"])

p("C07","Applying to a drifted document is nearest exact match or an error",
"Applying a patch to a document that has drifted (patches arriving late, twice, out of order, or with skewed line numbers) either fails naming the first hunk that has no place, or yields the document in which each hunk in turn has replaced one verbatim occurrence of its old lines by its new lines. Each hunk goes to the occurrence nearest to the line it states for the new file, among occurrences that touch no line already patched by an earlier hunk of the same patch. Everything else in the document is unchanged, and a failed application changes nothing.",
["histories","schedules","inputs"],
"every history of deliveries of every set of patches to every replica document, including duplicates, reorderings, stale patches and altered line numbers",
"Two tests apply a patch with a wrong line number to one tiny document; multi-hunk drift, repeated lines, ties, exclusion of already patched lines and failures are not tested.",
["src/apply.rs"],
[("find_position / interleave","src/apply.rs"),("match_fragment rejects already patched lines","src/apply.rs"),("ApplyError(i + 1)","src/apply.rs")],
observe=["apply / apply_bytes result"])

p("C08","Replicas converge whatever order patches arrive in",
"When authors edit separate regions of a shared document whose lines are all distinct, every hunk has at least one old line, and no hunk's old lines (context included) contain a line another author's patch changes, every replica that eventually applies every author's patches ends with the same text, containing every edit exactly once, whatever order, delay, loss and retransmission the patches underwent. A patch that deletes a line or inserts between lines of its context, delivered again before any later patch of the same author has been applied, is rejected and leaves the replica unchanged.",
["schedules","fault_sequences","histories"],
"every number of authors, regions, edits and replicas; every order of arrival across authors, every loss, duplication, retransmission, partition and replica restart",
"No test applies more than one patch to a document.",
["src/apply.rs","src/diff/mod.rs","src/patch/parse.rs","src/patch/format.rs"],
[("position search over the whole document in find_position","src/apply.rs"),("context lines carried by to_hunks","src/diff/mod.rs")],
observe=["replica texts after the network heals","apply results for duplicates"])

p("C09","A journal of patches recovers every version exactly",
"From a journal of patches between successive versions of a document, and any one version that survives a crash, every other version whose connecting patches were durable is recovered exactly by applying patches forwards and reversed patches backwards, in any walk over the versions. Reversing twice gives the patch back, and a reversed patch survives rendering and parsing. A torn last journal record never damages the recovery of earlier versions.",
["histories","crash_points","fault_sequences"],
"every version history (including repetitive text, empty versions, missing final newlines and any context length), every crash point of the journal writer, every walk of undo and redo steps",
"Two tests reverse a single patch once, in memory.",
["src/patch/mod.rs","src/apply.rs","src/diff/mod.rs","src/patch/format.rs","src/patch/parse.rs"],
[("Patch::reverse, Hunk::reverse, Line::reverse","src/patch/mod.rs"),("find_position uses the (reversed) new range","src/apply.rs")],
observe=["recovered version texts"])

p("C10","Merge-based sync loses no edit and applies each exactly once",
"When clients synchronise a shared document whose lines are all distinct by three-way merging their copy with the current one against the version they last saw, then whatever the order of syncs, delays, lost acknowledgements and retries, edits to separate regions merge without conflict and each appears exactly once in the final document, and an edit both sides already share is never duplicated or reported as a conflict. Two different edits of one region are always reported as a conflict, never silently resolved. The conflict output contains both versions of the region (and the ancestor's, in diff3 style) verbatim between marker lines of the configured length that each stand on a line of their own, and the merged remainder outside them. A sync in which only one side changed, or both made the same change, gives exactly that change, however repetitive the text.",
["histories","schedules","fault_sequences","configurations"],
"every number of clients, every assignment of edits to regions whose lines are told apart by distinct unchanged lines between them, every sync order, loss, duplication, partition and client restart, both conflict styles, every marker length, text and byte API",
"The tests merge seven fixed triples once; no sequence of merges, no retry of a merge already included, no missing final newline inside a conflict.",
["src/merge/mod.rs","src/diff/mod.rs","src/diff/myers.rs","src/diff/cleanup.rs"],
[("merge_solutions, diff3_range_to_merge_range, create_merge_range","src/merge/mod.rs"),("cleanup_conflicts","src/merge/mod.rs"),("output_result / output_result_bytes","src/merge/mod.rs")],
observe=["merge / merge_bytes result at every sync","document after the network heals"])

p("C11","Results depend only on the inputs of the call",
"Creating, rendering, parsing, reversing, applying and merging give the same result for the same arguments whatever other threads are doing with the same or other patches, formatters and options, whatever was called before (including calls that failed or whose sink panicked), whatever the process's hash seeds, clocks, environment variables and terminals are. No call waits for another: a call stopped at any point never prevents others from finishing. Patches, formatters and options can be shared between threads.",
["schedules","histories","fault_sequences","configurations"],
"every interleaving of calls from several threads at basic-block granularity, every point at which one of them is stalled, every hash seed, environment and clock behaviour, every prior history of calls",
"The suite never shares an object between threads and never compares two executions of one call under different hash seeds or histories.",
["src/utils.rs","src/diff/mod.rs","src/merge/mod.rs","src/apply.rs","src/patch/format.rs","src/patch/parse.rs"],
[("no global or interior mutable state","src/lib.rs and all modules"),("Classifier ids are assigned in order of first appearance, the hash map is never iterated","src/utils.rs")],
observe=["result of every call against the same call executed alone"])

p("C12","A long series of calls leaves nothing behind",
"However many calls a process has made, on one thread or on many, and whatever their outcomes (success, rejected patch, refused application, conflict, failing or panicking sink), once their results are dropped the memory held by the library is bounded by the size of the largest call alone and does not grow with the number of calls, and a call takes no more steps than it would have taken at the start.",
["histories","fault_sequences","schedules"],
"every history of calls with any mixture of outcomes, every distribution of the calls over threads, every time at which results are dropped",
"The tests make a few dozen calls per process and never look at what remains allocated or at what a call costs.",
["src/utils.rs","src/patch/mod.rs","src/patch/parse.rs","src/patch/format.rs","src/diff/mod.rs","src/merge/mod.rs","src/apply.rs"],
[("no caches, interned names or registries: everything a call allocates is owned by its result or dropped","all modules"),("file names are owned or borrowed in a Cow, never leaked","src/patch/mod.rs")],
observe=["memory requested by the library and not returned, after each round of calls","steps of the same call before and after the history"])

p("C13","Peers that merge each other's versions agree and keep every edit",
"Peers that exchange their versions of a text and each merge the other's version into their own agree, whatever the text (repetitive, empty, without a final newline), the order of arrival, losses, repeats and restarts: either all merges are clean and give the same text, or all report the same conflicts with the two sides exchanged, whichever conflict style, marker length and API (text or bytes) each uses, so that settling conflicts by the same rule gives the same text everywhere. Every merge keeps each edit of both versions exactly once: each line of a version is in the merged text, or was dropped by the other version, or stands in a conflict; each line of the ancestor that both kept is there; no line is made up or repeated. A conflict shows runs of lines of the two versions and the ancestor, in order, never with both sides the same or with a side that equals the ancestor.",
["histories","schedules","fault_sequences","configurations"],
"every text and every two edited versions of it, every assignment of API, conflict style and marker length to the peers, every order, loss and repetition of messages and every restart, over several rounds in which each merged text is the ancestor of the next",
"The tests merge seven fixed triples in one direction only and compare with fixed texts.",
["src/merge/mod.rs","src/diff/mod.rs","src/diff/myers.rs","src/diff/cleanup.rs"],
[("merge_solutions, diff3_range_to_merge_range, create_merge_range","src/merge/mod.rs"),("cleanup_conflicts","src/merge/mod.rs"),("output_result / output_result_bytes","src/merge/mod.rs")],
observe=["merge / merge_bytes result of each peer in each round","text each peer continues with"])

p("C14","A patch guards exactly the lines around its edits",
"When clients edit one document at the same time without locks and send patches made with n lines of context against the version each has seen, the context decides whether an edit still fits. In a document whose lines are all distinct a patch (or its reverse, to take an edit back) is accepted if and only if the lines it replaces and the n lines before and after each of its edits, as far as the text has them, still follow each other unchanged, wherever in the document they now stand; the result then has each edit in its place and everything else as it was. Otherwise it is refused, naming the first hunk for which that is so, and after looking at the current version again every client gets its edits through. To that end every hunk of a created patch, for any texts, begins and ends with exactly n lines of context where the text has them, edits share a hunk when their contexts overlap, and edits whose contexts leave a line between them do not.",
["histories","schedules","fault_sequences","configurations"],
"every number of clients, every context length, every set of edits and of concurrent changes at, just inside and just outside the guarded distance, every order, loss, delay and repetition of messages, every restart of the store",
"Three context lengths are tried on one pair of texts; no patch meets a document that others have changed near its edits.",
["src/diff/mod.rs","src/apply.rs","src/patch/mod.rs"],
[("to_hunks, calc_end","src/diff/mod.rs"),("match_fragment compares context lines exactly, find_position","src/apply.rs")],
observe=["hunks of the created patch","apply result at every delivery","document after the network heals"])

p("C15","Running out of memory never yields a wrong result",
"When the allocator refuses a request at any point of a call that creates, parses, renders, reverses or applies a patch or merges texts, the call gives exactly the result it gives with enough memory, or panics, or ends the process, or (writing to a byte writer) reports that memory ran out having written only a beginning. It never gives another result: no patch with hunks or names missing, no other edit script, no refused application, no merge with markers or lines missing, no short rendering that counts as success. In a process that goes on afterwards, on the same thread or another, every call gives its usual result.",
["fault_sequences","inputs","histories"],
"every call, every request of it that is refused: one, all from some point on, all above some size, all beyond some total, and every call made afterwards",
"No test can refuse an allocation.",
["src/utils.rs","src/patch/mod.rs","src/patch/parse.rs","src/patch/format.rs","src/diff/mod.rs","src/diff/myers.rs","src/merge/mod.rs","src/apply.rs"],
[("all growth is by infallible collections, no fallback for a refused request","all modules"),("to_bytes and Display grow their output","src/patch/mod.rs"),("Classifier::classify","src/utils.rs"),("output_result","src/merge/mod.rs")],
observe=["result of the call, or how it ended, with seeded requests refused","results of calls made afterwards"])

p("C16","Long inputs never exhaust the stack",
"Creating, parsing, rendering, reversing, applying, comparing, copying and dropping patches and merging texts need no more stack for a long input than for a short one: every call fits a thread with a stack of 128 KiB, however many lines, hunks, edits, conflicts, escaped characters or damaged parts its input has, however long lines and names are, however far a hunk belongs from the line it states, and however often a writer interrupts or shortens a write.",
["fault_sequences","inputs"],
"every call, every length and shape of texts, patches, names and documents, every number of interruptions and short writes",
"Tests use short inputs on a thread with a large stack; recursion per line, hunk or retry works there and ends the process elsewhere.",
["src/patch/parse.rs","src/patch/format.rs","src/patch/mod.rs","src/diff/mod.rs","src/diff/myers.rs","src/diff/cleanup.rs","src/merge/mod.rs","src/apply.rs"],
[("conquer recurses on halves of the edit script only","src/diff/myers.rs"),("hunks, hunk_lines, escaped_filename loop","src/patch/parse.rs"),("find_position iterates","src/apply.rs"),("shift_diff_up, shift_diff_down loop","src/diff/cleanup.rs"),("write_into loops, std retries interruptions","src/patch/format.rs")],
observe=["stack pointer at every basic block of the call"])

# --- properties outside the family
p("C20","Diffs are minimal",
"The number of deleted plus inserted lines in a created patch is the smallest possible for the two texts.",
["inputs"],"all pairs of texts","Only fixed pairs are compared with fixed expected patches.",
["src/diff/myers.rs","src/diff/cleanup.rs"],[("find_middle_snake / conquer","src/diff/myers.rs"),("compaction only shifts and merges edits","src/diff/cleanup.rs")],observe=["create_patch"])
p("C23","Patches of other tools are understood",
"Every single-file unified diff produced by git diff or GNU diff -u, with its preamble, timestamps and function context, parses to the edits it states, and every created patch is accepted by GNU patch and git apply.",
["inputs"],"all single-file unified diffs","A few hand-written samples.",
["src/patch/parse.rs","src/patch/format.rs"],[("skip_header_preamble, parse_filename, hunk_header","src/patch/parse.rs")],observe=["Patch::from_str"])
p("C24","Diffing stays fast on similar texts",
"The work of creating a patch grows with the size of the texts times the number of differing lines rather than with the product of the sizes.",
["inputs"],"all pairs of texts","No test measures the work of diffing.",
["src/diff/myers.rs"],[("divide and conquer with linear space","src/diff/myers.rs")],observe=["execution steps"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
