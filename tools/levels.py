LEVELS = {
    "C01": ("explicit-state breadth-first search over real builds", "model_checking",
            "Every reachable on-disk state of a dozen small project universes (one with the configuration as a file) under every edit (all single edits, most double edits) is built incrementally by the real code and compared with a clean build; so is every way (place, size, modification time) of changing a file of each kind; states are merged only when every byte on disk and every recorded signature relation is equal. Assumes content changes are visible in the documented signature and default worker order."),
    "C02": ("exhaustive enumeration of crash points, and explicit-state search over histories with failing builds, on real builds", "model_checking",
            "Builds of five project universes are killed at every file-system effect (with the file being written empty, cut in half or complete) and every distinct resulting state gets every follow-up build, compared with a clean build; all histories (to a depth) of valid and broken source states of six universes are explored, merged by on-disk state. Not covered: kills in the middle of several workers' simultaneous effects."),
    "C03": ("stateless exploration of worker schedules of the real build, bounded by deviations from the default schedule", "model_checking",
            "The workers of the process pool are run under a controlled scheduler that owns every file-system access: schedules are enumerated by number of deviations (who runs next, at every access that can conflict), smallest first and every level complete, for two dozen source states and edits; the published tree, the graphs' meaning or the failure must be the same for each. Bounded by the deviation bound reached per universe (recorded in the evidence)."),
    "C06": ("exhaustive enumeration of event histories, event timings and injection points on the real watcher and the real rebuild", "model_checking",
            "Every pair (and of a smaller alphabet every triple) of file operations with prompt, late and partial delivery of their notifications and polls in between, and operations injected at every single file-system access of a rebuild and of the first build, run on the real handler and the real runner with a virtual clock; in the end the published tree must equal a clean build and the last rebuild must have succeeded; polls before the debounce time or without news must not rebuild; each file of the bookkeeping is damaged before a start. The notifications of each operation are compared with those of the real observer. Assumes notifications are never lost and are delivered in order."),
    "C16": ("stateless exploration of worker schedules of the real build, bounded by deviations from the default schedule", "model_checking",
            "Pages and glue files that use the same or different crops of an image are built under every schedule of the bounded enumeration (every conflicting file-system access is a scheduling point), from empty and existing artifacts; target numbers, metadata, published files and reuse are compared with what the requests call for. Bounded by the deviation bound reached per universe."),
    "C24": ("exhaustive enumeration of sources through both the scanner and the builder", "model_checking",
            "Every source of the alphabets of the other checks (pages, styles, scripts, glue) is scanned and built; the dependencies and outputs the scan reports must be those building it, in the same build, reports and really produces, in clean and in incremental builds."),
    "C04": ("exhaustive enumeration of reference graphs and reference spellings through real builds", "model_checking",
            "Every acyclic reference graph over eight files is built and rebuilt after each kind of file changed, every version recomputed from the published bytes; every listed spelling of a reference in HTML and CSS is built and judged by independent parsers; files of every size around the powers of two are built, changed in their last byte and rebuilt. Bounded by the file set, spelling and size lists."),
    "C05": ("exhaustive enumeration of small source trees through real builds", "model_checking",
            "Every file of a path alphabet (folders x names x kinds of content), every pair of a smaller one and every change of one small tree into another is built with copies and links; listing, bytes and hashes of the published tree are compared with those written down from the paths alone."),
    "C07": ("exhaustive exploration of operation sequences of the real class against a reference digraph", "model_checking",
            "Every sequence of graph operations up to a depth over a few nodes (all argument combinations, with cycles allowed and forbidden) is run on the real class next to a plain digraph; states are merged when the real object's content is equal. Bounded by node count and depth."),
    "C08": ("exhaustive enumeration of bounded token sequences through real builds, compared by an independent tokenizer", "model_checking",
            "Every sequence of lexemes, every string of deciding characters and every character in every lexical context up to a bound is part of a stylesheet built by the real code; the published text is tokenized by an independent css-syntax-3 tokenizer and compared. Bounded by sequence length."),
    "C09": ("exhaustive enumeration of bounded token sequences through real builds, compared by an independent parser", "model_checking",
            "Every sequence of lexemes up to a length over alphabets covering each lexical form, and every character (pair) in each lexical context, that an independent parser (acorn) accepts as a module is built by the real code and the published text parsed and compared. Bounded by sequence length."),
    "C10": ("exhaustive enumeration of import declaration forms through real clean and incremental builds", "model_checking",
            "Every import declaration of the grammar up to a clause size, with every gap, quote, specifier kind and position, and every listed non-import context, is built; the published tree must be the source tree with exactly the expected versions, again after every imported module changed. Re-exports and cycles are outside."),
    "C11": ("exhaustive enumeration of element sequences through real builds against a rewriting oracle", "model_checking",
            "Every sequence of up to three script, style and other pieces in every region of a page, over page paths and through templates, and every change from one sequence to another, is built; the published page must be the source with each inline element replaced by a reference to a file that is published like an ordinary file of the same code."),
    "C12": ("exhaustive enumeration of command sequences through real builds against a scoping interpreter", "model_checking",
            "Every page body of up to three commands times every template body of up to two is built by the real code and the published document compared with the one a small scoping interpreter expands; every value, command spelling and position of the lists likewise. Bounded by body length; templates are phrasing content."),
    "C13": ("exhaustive enumeration of stylesheet bodies through real builds against an expansion model", "model_checking",
            "Every stylesheet of up to three (thorough: four) of twenty top-level items, at its own path and as the default stylesheet, every selector spelling, block and import position of the lists is built by the real code and compared token by token with the expansion of the generating model. Bounded by body length."),
    "C14": ("exhaustive enumeration of icon commands, palettes and build histories against a command model", "model_checking",
            "Every command of the grammar under every palette and button configuration of the lists, every combination of svg fragments, and every history of two (thorough: three) project states is built; classes, declarations, versions and recoloured files must be exactly those of the model. Bounded by the lists."),
    "C15": ("exhaustive enumeration of image commands, source sizes and configurations through real builds against a sizing model", "model_checking",
            "Every command of the grammar's lists (crop styles, arguments, lazy/eager, sizes) for every source of a list of small images under several configurations is built; the markup is parsed, every referenced file decoded and its format, size, cropped area and the choice for each ratio compared with an independent model. Bounded by the lists and by small images."),
    "C19": ("explicit-state breadth-first search over histories of edits, builds and cleans on the real code", "model_checking",
            "All histories up to a depth of source edits (generated-looking files written, edited or deleted by the user), builds and cleans (with and without placeholders) are run; after each clean exactly the generated files are gone and the next build equals a clean one."),
    "C20": ("exhaustive enumeration of pre-existing folder contents through the real init", "model_checking",
            "Every combination (to a bound) of pre-existing files and folders is initialised; no pre-existing byte changes, the missing skeleton appears, and the result builds in every mode."),
    "C21": ("explicit-state breadth-first search over histories of configurations, server behaviours and builds, and all kill points", "model_checking",
            "All histories to a depth of configuration changes, local edits, server behaviours (a real loopback server: wrong, cut, failing, redirected) and builds are compared with a reference model, every request recorded; builds between every two configurations are killed at every file-system effect and followed by every configuration; every way of changing an installed file (place, size, time) is tried."),
    "C26": ("exhaustive enumeration of glue requests and build histories through real builds, evaluated by a JS engine", "model_checking",
            "Every request of the lists under each configuration and every short history of glue, placeholder and importer states is built; the published module is evaluated and its entries compared with the files really published; file and folder names with dots, escapes and other odd characters likewise."),
    "C17": ("explicit-state breadth-first search over build histories, exhaustive enumeration of configurations", "model_checking",
            "All histories of builds in either mode, configuration and source edits and failing builds are explored until no new on-disk state appears, and each build's constants module is evaluated and compared with the configuration; every value of a list in every presence combination likewise."),
    "C18": ("exhaustive enumeration of tags, values, page paths and hosts through real builds", "model_checking",
            "Every combination of the tag forms, values, page paths, hosts and surroundings of the lists is built and the published document compared with the source completed by hand. Bounded by the lists."),
    "C22": ("exhaustive enumeration of line sequences through real builds", "model_checking",
            "Every sequence of up to three (thorough: four) line kinds, hint lines and near misses included, is built; the published module must parse like the source without its hint lines."),
    "C23": ("exhaustive enumeration of data-url spellings and placements through real builds", "model_checking",
            "Every combination of url form, quoting, escaping, media type, payload and place in a stylesheet of the lists is built by the real code; the published stylesheet must be the source except that each data image became a versioned url of a published file with exactly the payload's bytes."),
    "C25": ("exhaustive enumeration of bounded HTML piece sequences through real builds, compared by an independent reading of the tree", "model_checking",
            "Every sequence of pieces up to a length and every character in every context is built; the published page must parse to the same document as the source."),
    "C27": ("exhaustive enumeration of texts, chunkings and call sequences on the real readers", "model_checking",
            "Every text over a small alphabet up to a length, three chunkings of the underlying stream, every call sequence up to a depth, compared with a cursor into the normalised text."),
    "C28": ("explicit-state search over build histories and crash points on real builds", "model_checking",
            "Every history (to a depth) of builds of valid and broken project states in all modes, and builds killed at every file-system effect; below src the kind, mode, identity, modification time and bytes of everything are compared before and after each build."),
    "C29": ("exhaustive enumeration of requests, validators and rebuilds against the real server process", "model_checking",
            "Every path over an alphabet of segments and escapes up to a length is requested from the real server over sites built with copies and symlinks, and every rebuild between site states happens under a running server whose clients revalidate; answers are compared with the files. Bounded by the alphabet and the list of sites."),
    "C30": ("exhaustive enumeration of projects, worker orders and kept artifacts through real builds", "model_checking",
            "Every project of the lists is built from nothing under two orders of the workers, in both modes, at folders of different depth and by processes with other hash seeds, and again from each choice of kept artifacts; artifacts must be byte for byte the same up to target numbers and the published site equal. Bounded by the lists."),
    "C31": ("exhaustive enumeration of command lines, working folders and project states through the real command line", "model_checking",
            "Every command line of the lists is run in a process of its own from every working folder, spelling of the project and state of the project of the lists; exit status, the published site and the whole tree around the project are compared with those of a direct build. Bounded by the lists."),
}
NOT_APPLICABLE = {}
