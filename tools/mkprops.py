#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The texts live here so that they can be edited.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "A save that reports success delivered the whole package",
  "When saving a document reports success, the destination has accepted every byte of one complete package that contains every part of the document, and the byte count returned is the number of bytes the destination accepted. If the destination refuses a write at any byte, or accepts less of a write than it was given and the rest is not delivered, or a template file or carried-over source part cannot be opened or read in full, the save returns an error.",
  ["fault_sequences", "inputs", "configurations"],
  "Every document and every template configuration, saved to a destination or from sources that fail, stay short, or fail once and recover, at any byte offset or call.",
  "Every existing test marshals to a healthy file or buffer; none injects a write error, and none looks at the error or the count after the last part has been copied.",
  ["docx.go", "pack.go"],
  "WriteTo drives a zip writer over the destination; pack opens the template files, adds the marshalled document, its relationships and the media, and the central directory is flushed by Close.",
  [("bytes accepted", "what the destination acknowledged so far")])
p("C02", "A save cut short is never accepted as a document",
  "If a save is cut off after any number of bytes - by a failed save or by a crash - then what is left in the destination is rejected with an error when it is opened, and never opens as a document with missing or shortened content.",
  ["crash_points", "fault_sequences", "inputs"],
  "Every byte offset at which a save of any document can stop, whether the writer failed, was short, ran out of space or the process died; documents whose parts do not themselves contain a package.",
  "Tests never interrupt a save; the offsets that matter (between parts, inside the directory) number in the thousands per document.",
  ["docx.go", "pack.go", "unpack.go"],
  "The zip central directory is written last and only after every part was copied; opening starts from it.")
p("C03", "Saving, failed or not, leaves the document as it was",
  "Saving a document any number of times, with any of the saves failing part-way, does not change the document: its content, relationships and media stay the same, and the next save that meets no fault succeeds and holds exactly the parts, byte for byte, that a save without the earlier faults would have held.",
  ["fault_sequences", "histories", "inputs"],
  "Every document state reachable through the API or by opening, and every sequence of successful and failing saves of it (destination, template and source faults, transient or sticky).",
  "Tests save a document at most once and always successfully.",
  ["docx.go", "pack.go", "unpack.go", "theme.go"],
  "pack reads the document, relation table, media and the template file system without consuming or editing them; sources are reopened for each save.")
p("C04", "A saved document comes back the same after losing the process",
  "Once a save has reported success, opening the saved bytes in a fresh process yields a document with the same body content in the same order - text, tabs, breaks, links with their targets, pictures with their bytes, tables, shapes and every formatting property set through the API or read from an opened file - and this holds again for every further edit, save and reopen, and for every package that can be opened and saved, however oddly structured. White space at the ends of added text is marked as significant.",
  ["histories", "crash_points", "inputs"],
  "Every document built with the public API (or whose structure was filled in through the exported types), and every history of edits, acknowledged saves, crashes that lose all memory, and reopens.",
  "Tests unmarshal fixed snippets and compare a few fields; none carries a built document through save, loss of memory, reopen and further edits.",
  ["pack.go", "unpack.go", "structdoc.go", "structpara.go", "structrun.go", "structtext.go", "structtable.go", "structdrawing.go", "structshape.go", "structeffects.go", "structsect.go", "structnum.go", "structlink.go"],
  "Marshalling through struct tags and the hand-written UnmarshalXML readers are inverse to one another.")
p("C05", "Parts the library does not edit are carried over byte for byte",
  "Every part of an opened package other than the document body and its relationship table - styles, themes, settings, media and anything unknown - is present under the same name with the same bytes in every later save, through any number of open-edit-save generations; only the table of content types may gain types of pictures. If the source of such a part can no longer be read when saving, the save fails instead of dropping, shortening or altering the part.",
  ["histories", "fault_sequences", "inputs"],
  "Every package the library accepts, every history of edits, saves and reopens, and every read failure, truncation or corruption of the source storage while a later save reads it lazily.",
  "No test opens a package with extra parts and saves it again, and none fails the source reader at save time.",
  ["unpack.go", "pack.go", "media.go"],
  "unpack lists the remaining parts and keeps the zip reader as the template file system; pack copies them when saving.",
  [("carried-over parts", "names listed when the package was opened, read lazily from the source")])
p("C06", "Damaged storage is reported, never misread",
  "Opening a package whose stored part data was damaged, or whose storage fails or ends early while it is read, either returns an error or yields exactly the content that was saved; it never panics, never fails to terminate, and never yields different content. Packages that are intact but oddly structured (parts missing, renamed, repeated or with unexpected XML) do not crash it either. A document that is accepted can be printed, split, appended and saved without a crash.",
  ["fault_sequences", "inputs", "crash_points"],
  "Every saved package and every flip, zeroed sector, truncation, overwrite torn inside the part data, or read error (sticky or transient) at any offset or read call, during opening and during later lazy reads.",
  "Tests only read healthy bytes.",
  ["unpack.go", "docx.go", "structdoc.go", "structdrawing.go", "structrun.go"],
  "Parts are read through the zip reader, whose checksum is verified only when a part is read to its end; the XML readers propagate errors.")
p("C07", "Every picture keeps its own bytes",
  "Each picture in a document refers to exactly the image bytes it was added with, whatever was added, opened, appended or split before or afterwards; no operation makes one picture show another picture's bytes, and no two images in a saved package share a part name.",
  ["histories", "inputs", "crash_points"],
  "Every history of adding inline and floating pictures, saving, crashing and reopening, appending documents to each other, splitting, and rebuilding a document from extracted items and media.",
  "Tests add pictures to one fresh document only; collisions need a reopened, rebuilt or merged document.",
  ["image.go", "media.go", "apidrawing.go", "structdoc.go", "structdrawing.go", "unpack.go", "docx.go"],
  "A new image is stored under a generated name, looked up by name, and referenced through a new relationship.",
  [("image name counter", "restarted when a document is opened, split off or loaded"), ("media name index", "name to stored bytes")])
p("C08", "Relationship ids are unique and keep their meaning",
  "In every document no two relationships have the same id, and an id that was handed out or read from a file resolves to the same target for the rest of the document's history, including after reopening. Looking up by id and by target agree with the listing, and iterating visits every relationship exactly once in order and stops at the callback's first error.",
  ["histories", "inputs", "crash_points"],
  "Every history of links and pictures added, documents appended, split, saved, crashed and reopened, starting from any relationship table the library accepts (any order, gaps, large numbers).",
  "Tests look up one hand-made table; uniqueness over histories with reopen and append is not sampled.",
  ["link.go", "apilink.go", "apirel.go", "unpack.go", "image.go", "structdoc.go"],
  "A counter raised to the largest id seen when opening, incremented for each new relationship.",
  [("relationship counter", "largest id in use")])
p("C09", "Drawing ids handed out never repeat within a document",
  "Every picture or shape added to a document gets a drawing id that no drawing added to that document, or already present when it was opened, has; this stays true across saves, crashes and reopening, and across appended documents' pictures.",
  ["histories", "crash_points", "inputs"],
  "Every history of adding pictures and shapes, appending, saving, crashing and reopening, over any number of generations.",
  "Tests never add a drawing to a reopened document.",
  ["apidrawing.go", "apishape.go", "unpack.go", "structdrawing.go"],
  "A per-document counter, which has to be at least the largest id in use after opening.",
  [("drawing counter", "last drawing id handed out")])
p("C10", "A save closes every template file it opened",
  "For every file that a save opens in the template file system, the file is closed by the time the save returns, whether the save succeeded or failed and wherever it failed, and no file is used after it was closed.",
  ["fault_sequences", "configurations", "histories"],
  "Every template configuration and every failure of opening, reading or writing at any point of a save, repeated over any number of saves.",
  "The default template is embedded, where a leaked handle has no effect; tests never count handles.",
  ["pack.go"],
  "pack opens the files in the template list and copies each into the package.")
p("C11", "Named counters are linearizable",
  "Concurrent callers incrementing named counters of one document get results that are consistent with some one-at-a-time order: for each name the values handed out are consecutive, never repeated and never lost, and names do not influence one another.",
  ["schedules", "histories"],
  "Every interleaving of any number of callers incrementing the same or different names of one document, mixed with other calls that draw on the same counters.",
  "No test calls it from more than one goroutine.",
  ["id.go", "apishape.go", "apidrawing.go"],
  "A map of counters guarded by a mutex.",
  [("counter map", "name to last value")])
p("C12", "Editing different paragraphs concurrently loses nothing",
  "Goroutines that add text, tabs, breaks, formatting and shapes to different paragraphs, or fill different table cells, of the same document leave the document as some one-at-a-time order of the same calls would: nothing is lost or misplaced, every drawing id and number is unique, and there is no data race.",
  ["schedules", "inputs"],
  "Every interleaving of callers that each own their paragraphs and cells of one document and use the text, formatting, counter and shape operations on them.",
  "Tests are single-threaded.",
  ["apitext.go", "apirun.go", "apipara.go", "apishape.go", "apitable.go", "id.go"],
  "Document-wide state these calls touch is a set of atomic counters and a mutex-guarded map; the rest belongs to the paragraph.")
p("C13", "Concurrent readers of an unchanged document do not disturb each other",
  "Saving, printing, splitting, looking up, iterating and appending from the same document in several goroutines at once, while nobody edits it, gives each caller exactly the result it would have got alone, including when some of the saves fail; there is no data race, deadlock or crash and the document is unchanged afterwards.",
  ["schedules", "fault_sequences"],
  "Every interleaving of reading operations and saves on one shared document that was built or opened, with destinations and sources that may fail for some of the callers.",
  "Tests are single-threaded and never share a document.",
  ["docx.go", "pack.go", "structdoc.go", "structdrawing.go", "media.go", "link.go", "apirel.go"],
  "The reading paths must not write to the shared document; a save builds its own working state.")
p("C14", "Independent documents do not influence each other",
  "Goroutines that each work on documents of their own - building, opening (even from the same storage), saving, splitting and appending, over shared templates - get exactly the results they would have got running alone, and there is no data race, however the calls interleave and whichever of them meet storage faults.",
  ["schedules", "fault_sequences", "configurations"],
  "Every interleaving of callers on disjoint documents that share template file systems, template lists, the default theme or the bytes they were opened from.",
  "Tests never run two documents side by side.",
  ["docx.go", "empty.go", "theme.go", "fs.go", "pack.go", "unpack.go", "apitable.go"],
  "All mutable state is per document; package-level state is read-only.")
p("C15", "Adding a picture either works or changes nothing",
  "Adding a picture from a file or from bytes either succeeds - and the paragraph has one more run showing exactly the file's bytes - or returns an error and leaves the document, its media, its relationships and the paragraph as they were. A missing, unreadable, truncated, empty or malformed image is reported as an error and never panics.",
  ["fault_sequences", "inputs"],
  "Every image file content (any truncation or damage of any supported format) and every failure while the file is read, at any point of a document's history.",
  "Tests add only healthy images.",
  ["apidrawing.go", "image.go", "media.go", "link.go"],
  "The image is read and its header decoded before any state is changed.")
p("C16", "Splitting partitions the document into pieces that stand alone",
  "Splitting yields documents whose contents, joined, are the source's paragraphs and tables in order, with exactly one cut before each matching paragraph after the first of a piece; each piece, once saved and reopened without the source, still shows the same text, link targets, picture bytes and shapes. The source is unchanged by the split, and by a separator that fails part-way.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "Every document holding text, links, pictures, shapes and tables (with pictures in cells and links), every separator, and every later history of saving, failing to save, editing and reopening pieces and source.",
  "No test splits a document.",
  ["structdoc.go", "structdrawing.go", "docx.go"],
  "Items are copied with their media and link relationships re-registered in the new document, which inherits the template.")
p("C17", "Appending keeps the content of both documents",
  "After appending one document to another the target shows its old content followed by the other's, in order, with the same text, link targets, picture bytes and shapes, before and after saving and reopening, even when the other document is appended repeatedly, is edited later, or is gone. The appended document is not changed by it.",
  ["histories", "crash_points", "inputs"],
  "Every pair of documents holding text, links, pictures, shapes and tables, every sequence of appends between several documents, interleaved with edits, saves, crashes and reopens.",
  "No test appends documents.",
  ["structdoc.go", "structdrawing.go", "link.go", "image.go", "media.go"],
  "Items are copied with their media and link relationships re-registered in the target.")
p("C18", "How a package is stored does not change what is read from it",
  "Opening the same parts gives the same document, and saving it again the same parts, whatever the order of the entries in the package, how each is compressed, whether folders are listed as entries of their own, and in whatever order the library visits its own tables.",
  ["configurations", "fault_sequences", "schedules"],
  "Every package the library accepts under every permutation of its entries, choice of storage method, presence of folder entries and iteration order of the library's maps.",
  "Tests never open a package; the order of entries written is random per run, so each run samples one.",
  ["unpack.go", "pack.go", "structdrawing.go", "link.go"],
  "Parts are parsed in archive order, so nothing may be resolved against a part that might come later; maps are ranged over while saving.")
p("C19", "The command line tool's success means its files are complete",
  "When the command line tool exits with success, every file it was asked to write is a complete package holding what was asked for, and its input file is untouched; if the input cannot be read in full or an output cannot be created or written in full, the tool exits with a failure status. When nothing goes wrong it succeeds, wherever the file lies and whatever it is called.",
  ["fault_sequences", "inputs"],
  "Every combination of the tool's writing options and every failing or short file operation it makes.",
  "The tool has no tests.",
  ["cmd/main/main.go"],
  "The tool opens, parses, writes and closes files in sequence and panics on an error.")
p("C20", "Merging adjacent text keeps what the paragraph says",
  "Merging the runs of a paragraph never loses, duplicates or reorders text, tabs, breaks, drawings, instructions or links, keeps white space significant, gives no text other formatting than the merge rule may ignore, and leaves the original paragraph as it was. Stored in the document, the merged paragraph saves and reopens reading the same as the original would have, whatever saves failed in between.",
  ["inputs", "histories", "fault_sequences"],
  "Every paragraph, built or read from a file, every merge rule, and every history of editing, merging, saving, failing to save and reopening.",
  "Tests merge one hand-made paragraph.",
  ["structtext.go"],
  "Runs are copied and their text nodes concatenated; a run that is not contiguous or must not be merged starts anew.")
p("C21", "Filters remove exactly what they name",
  "Keeping elements by kind (body, paragraph, run) removes every direct child of another kind and keeps the rest in order; dropping drawings by kind removes every such drawing from the runs and links of the paragraph, or of all paragraphs and table cells of the body, and nothing else. The filtered document saves and reopens as exactly that, whatever saves failed in between.",
  ["inputs", "histories", "fault_sequences"],
  "Every document, every combination of kinds, and every history of editing, filtering, appending, splitting, saving, failing to save and reopening.",
  "Tests never call the filters.",
  ["structdoc.go", "structpara.go", "structrun.go"],
  "Rebuilds the child lists, selecting by type.")
p("C22", "The type of every picture in a saved package is declared",
  "Every package a save writes whose table of content types is a valid table with an end tag declares, by extension or by name, the type of every media part that has an extension; png, jpeg, gif and webp pictures it lacked get the type of their format. The declarations that were in the opened package or template stay as they were and in order, nothing but types of media is added, and a table that lacks nothing is written byte for byte. If the table cannot be read in full, the save fails.",
  ["histories", "inputs", "fault_sequences"],
  "Every table of content types, format of picture, and history of adding, opening, appending, splitting, saving and failing to save.",
  "Tests never look at the table of content types.",
  ["contenttypes.go", "pack.go", "image.go"],
  "Saving completes the template's or opened package's table with the extensions of media that it does not know.")
p("C23", "References in a saved package lead somewhere",
  "In every package a successful save writes, each relationship id that the body uses (links, pictures, fills) is in the relationship table of the document, and each internal (not external) relationship of that table leads to a part that is in the package, unless its target was already missing in the opened package, template or loaded items. A relationship of an opened package to a part that is carried over (styles, numbering, settings, ...) is still in the table of every later save, and in that of every piece of a split.",
  ["histories", "inputs", "fault_sequences"],
  "Every history of linking, adding pictures, merging, filtering, appending, splitting, loading items, saving, failing to save, losing the process and reopening, over every valid package (with or without a relationship table).",
  "Tests only look at packages made in one go, never at what references of appended, split and reopened documents lead to.",
  ["structrel.go", "link.go", "image.go", "structdoc.go", "structdrawing.go", "pack.go", "unpack.go"],
  "The table of relationships is filled by opening, by adding links and pictures and by copying items between documents, and written together with the media it refers to.")
p("C24", "How the XML is written does not change what is read from it",
  "Opening, editing, appending and saving a package gives the same document and the same saved parts however the XML of its document and relationship table is written: which prefixes name the namespaces and where they are declared (or declared again), the order and quotes of attributes, characters given as references, text in several pieces (CDATA, around comments and processing instructions), white space and comments between elements and inside of empty elements, empty elements with or without an end tag, attributes that nobody knows, and the spelling of switches (1, true and on; 0, false and off).",
  ["configurations", "inputs"],
  "Every package the library accepts under every rewriting of its XML that the XML and namespace standards call equal (the prefixes wps, wpc and wpg, which Requires refers to, excepted).",
  "Tests read a handful of snippets, all written the same way.",
  ["unpack.go", "structdoc.go", "structpara.go", "structrun.go", "structtext.go", "structtable.go", "structdrawing.go", "structshape.go", "structeffects.go", "structsect.go", "structrel.go"],
  "Hand-written readers walk the tokens of nested elements, skip what they do not know and have to consume exactly their own element.")
p("C25", "Printing says what a paragraph says, and splitting by text cuts there",
  "Printing a paragraph gives the text of its runs and links in order - a tab and a line break for each tab and break, each link as [text](target) with the target it leads to (its id if it leads nowhere), each picture as ![...](MD5 of its bytes in hex), other drawings as ![...] - and nothing else; printing a table gives a row of marks as wide as its first row and then each row with the first paragraph of each of its cells. This holds after every edit, append, split, merge, save, loss and reopening, printing changes nothing, and splitting by a regular expression cuts exactly before the paragraphs whose printed text matches.",
  ["histories", "inputs"],
  "Every history of editing, printing, appending, splitting by any expression, saving and reopening, over built and opened documents.",
  "Tests print one document each and compare nothing; the texts printed depend on relationships and media that appending, splitting and reopening move.",
  ["structpara.go", "structtable.go", "structdrawing.go", "structdoc.go", "link.go", "media.go"],
  "Printing walks the runs, resolves links and pictures through the tables of the document that the paragraph belongs to, and is what the regular expression of a split is matched against.")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
