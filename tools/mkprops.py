"""Writes /verif/properties.jsonl (the statements live here so they stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
        anchors=dict(files=["vanillaplusjs/"+f for f in files],
            mechanism=[dict(name=n,where="vanillaplusjs/"+w) for n,w in mech],
            observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,title
    P.append(d)
HOT="build/hot_incremental_rebuild.py"; COLD="build/cold_incremental_rebuild.py"
p("C01","An incremental build publishes what a clean build would",
  "After any history of source edits, additions and deletions, changes of vanillaplusjs.json (host, images, icons, js constants) and builds of the same project, out/www holds exactly the same files with the same bytes as a build from scratch of the current sources (the numbering of generated image targets aside), and a build fails only if the clean build fails too. No stale output of a removed or changed source survives, and no output another source still needs is removed.",
  ["histories"],"every history of source states over small project universes (each file absent or one of several variants), every edit between consecutive builds",
  "The tests do at most one edit after one build on single-file projects; staleness needs particular multi-file histories.",
  [HOT,COLD,"build/graph.py","build/handlers/"],
  [("dirty-set closure over the stored dependency graph",HOT),("change detection by file signature",COLD),("output graph ownership",HOT)],
  ["out/www after build()"],
  [("dependency graph","which sources each source's outputs depend on","out/dependency_graph.json"),("output graph","which outputs each source produces","out/output_graph.json")])
p("C02","A build that fails or is killed never corrupts later builds",
  "If a build is killed at any point, or fails because the sources are broken, then once the sources are valid the next build succeeds without a manual clean and publishes exactly what a clean build of the current sources publishes. In particular no partially written file, and no output computed from superseded sources, is ever taken as up to date.",
  ["crash_points","histories"],"every file-system-effect crash point (including lost buffered writes) of a build, and every failing intermediate source state, of small projects, followed by every later edit in the alphabet",
  "No test interrupts a build or builds after a failed build.",
  [HOT,COLD,"build/handlers/hash.py","build/handlers/copy.py","build/handlers/js_constants.py"],
  [("outputs are reused only when known good",HOT),("order in which the graphs and mode file are written",HOT)],
  ["out/www after the recovery build"],
  [("graphs on disk","what the next build believes is up to date","out/*_graph.json")])
p("C03","Build results do not depend on worker timing",
  "For the same sources and prior state, every order and interleaving of the parallel scanning and building workers leads to the same success and the same published bytes. A file is only built once everything it depends on has been built, and two workers never build the same output at the same time.",
  ["schedules"],"all completion orders of the worker tasks and all file-system interleavings of concurrently running workers up to a preemption bound",
  "Tests run under whatever schedule the operating system picks; a race needs a specific one.",
  [HOT,"build/html/manips/outline.py","build/ioutil.py","build/handlers/"],
  [("dependency-ordered task queue",HOT),("pending output sets",HOT),("temporary outline files in src",  "build/html/manips/outline.py")],
  ["result of build() and out/www under each schedule"])
p("C04","Every cache-busting version equals the hash of the published target",
  "Every reference that the build versions - stylesheet and preload links, script sources, local module imports, root-relative CSS urls, outlined scripts and styles - keeps its path and carries v equal to the url-safe base64 SHA-256 of the bytes published at that path, so changing any transitively referenced file changes the version in every page that reaches it. References that are remote, or already carry a query or fragment, are left as written.",
  ["programs","histories"],"every reference graph over a small set of html/partial/css/js/asset files, before and after every single edit",
  "Tests check single references against one hard-coded hash; transitivity and combinations of reference kinds are not reached.",
  ["build/html/manips/link_hash.py","build/js/manips/hash_imports.py","build/css/manips/version_urls.py","build/html/manips/outline.py","build/handlers/hash.py"],
  [("hash files next to outputs","build/handlers/hash.py"),("link hashing","build/html/manips/link_hash.py"),("import hashing","build/js/manips/hash_imports.py"),("css url versioning","build/css/manips/version_urls.py")],
  ["out/www contents"])
p("C05","Exactly the public sources and their declared products are published",
  "Each file below src/public that is not processed is published byte for byte at the same relative path (copied or symlinked to the same content), each page, stylesheet and script is published at its own path, every published file has a sibling .hash holding its url-safe base64 SHA-256, and nothing else from src - partials, or sibling folders whose name merely starts with public - is published. Symlink mode and copy mode publish identical content, whatever the mode of the build before, and after a build with --no-symlinks no published file is a link.",
  ["inputs","configurations"],"every small source tree over a path alphabet (nesting, dots, unicode, spaces, prefix-confusable folders, extensions) in copy and symlink mode",
  "Tests use one or two fixed names and copy mode only.",
  ["build/handlers/copy.py","build/handlers/hash.py","build/handlers/copy_and_hash.py","build/scan_file.py","build/build_file.py"],
  [("target path mapping","build/handlers/copy.py"),("hash path mapping","build/handlers/hash.py"),("handler dispatch","build/build_file.py")],
  ["out/www listing and bytes"])
p("C06","The dev watcher loses no change, whatever the event timing",
  "For every sequence of file create, modify, delete and move notifications, including ones that arrive while a rebuild is running or right after one failed, once the events stop and the debounce time has passed the watcher has rebuilt so that out/www equals a clean build of the final sources, provided those are buildable. It never rebuilds before the debounce time has passed since the last event, it keeps running after a failed rebuild, which it does not repeat until something changes, and starting it over an out folder whose bookkeeping is damaged still ends with the site of a clean build.",
  ["schedules","histories","fault_sequences"],"every event sequence up to a length bound over a few files, interleaved with rebuild polls and failures in every position",
  "There are no tests of the watcher at all.",
  ["runners/dev.py"],[("event coalescing sets","runners/dev.py"),("debounce","runners/dev.py"),("restoring changes after a failed rebuild","runners/dev.py")],
  ["DevEventHandler callbacks and rebuild_if_appropriate","out/www"])
p("C07","The dependency graph is a faithful directed graph across any operations",
  "After any sequence of add, set-children and remove operations, the graph's parent and child lists are mutually inverse and agree with a plain directed graph, direct and nested relationship queries answer reachability correctly, refused operations (unknown nodes, duplicates, removing connected nodes, cycles when forbidden) change nothing, and storing then loading yields an equal graph.",
  ["histories"],"every operation sequence up to a bound over a few node names, breadth-first over distinct graph states",
  "Tests walk a handful of fixed graphs.",
  ["build/graph.py"],[("parent/child maintenance","build/graph.py"),("store/load","build/graph.py")],["FileDependencyGraph public methods"])
p("C08","CSS processing preserves the stylesheet's meaning",
  "For every valid stylesheet, the published stylesheet tokenizes (by the CSS Syntax standard, with comments ignored and white space collapsed) to the same tokens with the same values as the source, apart from the documented rewrites of url() versions, data images, imports and icons.",
  ["inputs"],"every sequence up to a length bound over an alphabet of CSS lexemes covering every token type, escapes, numbers with signs and exponents, strings, urls, unicode and nesting",
  "Tests compare a few fixed stylesheets; token adjacency and escapes are unbounded combinations.",
  ["build/css/tokenizer.py","build/css/serializer.py","build/css/manipulate_and_serialize.py","build/css/token.py"],
  [("tokenizer","build/css/tokenizer.py"),("serializer","build/css/serializer.py")],["out/www/css files"])
p("C09","JavaScript processing preserves the program",
  "For every valid module, the published module parses to the same program as the source - same syntax tree, literal values, regular expressions and templates, ignoring comments and quote style - apart from versioned import paths and lines marked as type hints.",
  ["programs"],"every sequence up to a length bound over an alphabet of JS lexemes (strings with escapes, templates, regexes, division, comments, numbers, punctuators, identifiers, line terminators) that forms a valid module",
  "Tests cover a few fixed strings, regexes and comments.",
  ["build/js/tokenizer.py","build/js/serializer.py","build/js/manipulate_and_serialize.py"],
  [("tokenizer","build/js/tokenizer.py"),("serializer","build/js/serializer.py")],["out/www/js files"])
p("C10","Every local static import form is versioned, and only imports are",
  "Every static import declaration of a root-relative local module - side-effect, default, namespace, named with renames, and combinations, over one or more lines, with either quote - is rewritten to carry the target's version and makes that target a dependency, while remote, bare and already-versioned specifiers, dynamic imports, import.meta, and text in strings, comments, templates or property names are left untouched.",
  ["programs"],"every import declaration of a bounded grammar in every surrounding context of a context alphabet",
  "Tests check two import forms.",
  ["build/js/manips/hash_imports.py"],[("import recogniser","build/js/manips/hash_imports.py")],["out/www/js files","dependency-driven rebuilds"])
p("C11","Published pages have no inline script or style, and lose no outlined code",
  "Every HTML script element with inline code and every HTML style element of a page (or of a template it includes; those inside svg or math content, where references have no effect, stay) is replaced, in place and in order, by a reference to its own generated file, keeping its other attributes; the generated file contains exactly that element's code after the normal JavaScript or CSS processing. No temporary file or folder is left in src.",
  ["inputs"],"every page over an alphabet of script/style/text elements and attributes up to a length bound, alone and together with other pages",
  "Tests have one script and one style page.",
  ["build/html/manips/outline.py"],[("outlining via a temporary source file","build/html/manips/outline.py")],["out/www html, js/gen, css/gen"])
p("C12","Templates and stack variables follow lexical scoping",
  "Every page over TEMPLATE and STACK commands publishes exactly what a simple interpreter gives: a template is read relative to src/partials (leading slash) or relative to the including file's folder, sees only the variables passed to it or defined inside it, may receive the including frame's variables by reference, and leaves the includer's variables unchanged; retrieved values appear as text. Everything outside commands is published unchanged. Templates are phrasing content with balanced push and pop commands.",
  ["programs"],"every program of commands up to a length and include depth bound, over a few partials and variables",
  "Tests use three fixed templates.",
  ["build/html/manips/template.py","build/html/builder.py","build/html/tokenizer.py"],[("stack interpreter","build/html/manips/template.py")],["out/www html"])
p("C13","CSS nesting imports equal inlining the named rules by hand",
  "For every stylesheet with import comments, the published stylesheet is the one obtained by replacing each import, in place, with the contents of the named rule: the first top-level rule with that selector (of the default stylesheet, or the stylesheet named by FROM, which may be this one), its own imports included, in whatever order the rules are defined. Everything else is unchanged. Imports of missing rules and cyclic imports fail the build.",
  ["programs"],"every stylesheet and imported file of a bounded grammar of selectors, declarations, at-rules and imports",
  "Tests are a dozen fixed pairs.",
  ["build/css/manips/nest.py"],[("selector catalogue and import expansion","build/css/manips/nest.py")],["out/www css"])
p("C14","Icon commands generate exactly the promised classes and icon files",
  "For every icon command, the stylesheet gains exactly the classes promised for the selected colours, sizes and button options, each referring to an icon file that is published below img/icons/<icon>/ and is the source SVG with its input colour replaced by the class's colour; unselected colours, sizes and buttons get nothing. Changing the SVG, the colours or the sizes changes all of them on the next build.",
  ["programs","configurations","histories"],"every icon command of a bounded grammar over every small palette of colours and sizes, and every single later edit",
  "Tests check nine fixed commands from a clean build.",
  ["build/css/manips/icons/"],[("command parser","build/css/manips/icons/parser.py"),("class generation","build/css/manips/icons/manip.py"),("settings from main.css","build/css/manips/icons/settings.py")],["out/www css and img/icons"])
p("C15","Image commands publish complete pictures with correct sizes and choices",
  "Each image command publishes a picture element whose every listed file exists, decodes, has exactly the listed size and format, and shows the part of the source image selected by the cover-fit crop (pre-crops applied, aspect ratio of the request, never upscaled, anchored by the crop percentages); resolutions grow by the configured steps from the requested size up to what the source and the configured maximum allow, and each file uses the encoding the configuration prefers among those allowed for its area and size budget; pictures load lazily unless told otherwise, and impossible requests fail the build. Changing the source image or the command updates the pictures on the next build.",
  ["inputs","configurations"],"every combination of source size, request size, pre-crop, percentages, step, maximum and export settings on a small grid",
  "Tests build one image with one command.",
  ["build/html/manips/images/"],[("cover fit","build/html/manips/images/cover_fit.py"),("resolutions","build/html/manips/images/resolutions.py"),("exporter","build/html/manips/images/exporter.py"),("metadata","build/html/manips/images/metadata.py")],["picture markup and decoded files in out/www"])
p("C16","Concurrent pages using the same image share one target safely",
  "When several pages or glue files use the same or different crops of the same images, then for every interleaving of their workers each distinct request gets exactly one target number, no two requests share one, every reference resolves to its own complete files, and a request that is already satisfied is reused rather than recomputed.",
  ["schedules"],"every file-system interleaving of two or three workers up to a preemption bound, from empty and pre-populated artifacts",
  "Tests build one page at a time.",
  ["build/html/manips/images/metadata.py","build/html/manips/images/manip.py","build/html/manips/images/exporter.py"],
  [("inter-process lock and counter","build/html/manips/images/metadata.py")],["artifacts/ and out/www/img"],
  [("placeholder and metadata entries","which target id belongs to which request","artifacts/<image>/")])
p("C17","JavaScript constants always match the configuration and build mode",
  "After every successful build, the published constants module exports exactly the configured shared constants overridden by those of the mode of that build, with equal values, whatever modes earlier builds used and whether they failed; it exists exactly when the constants source file exists, and importers carry its current version.",
  ["histories","configurations"],"every history of dev and prod builds, constants-file creation and removal, configuration change and failing builds up to a length bound, and every value of a value alphabet",
  "Tests build once or twice with one constant.",
  ["build/handlers/js_constants.py",HOT],[("mode marker file",HOT),("constant serialisation","build/handlers/js_constants.py")],["out/www/js/constants.js"],
  [("mode file","mode of the published constants","out/js_constants_mode.txt")])
p("C18","Canonical and og:url links get the right absolute url",
  "With a known host, a canonical link or og:url without the attribute for its value points to https://host plus the page's own published path; a path value is joined to the host with exactly one slash; an absolute url, and every other link or meta, is untouched. Without a host, nothing is invented.",
  ["inputs","configurations"],"every combination of page path, tag form, value form and host configuration of an alphabet",
  "Tests check four cases.",
  ["build/html/manips/link_rel_canonical.py"],[("url completion","build/html/manips/link_rel_canonical.py")],["out/www html"])
p("C19","Clean removes exactly the generated files",
  "From any project state reachable by builds, edits and deletions, clean removes out and artifacts and, if asked, every still existing generated placeholder in src, and nothing else - in particular no file the user wrote or edited next to a glue file; it succeeds in every such state and a following build equals a first build.",
  ["histories"],"every reachable state of a small project universe with placeholders and images, cleaned in both modes",
  "Tests clean once after one build.",
  ["runners/clean.py"],[("placeholder graph","runners/clean.py")],["project folder listing before and after"])
p("C20","Init is idempotent and never overwrites user files",
  "For every pre-existing subset of the project files, init leaves existing files byte-identical, creates every missing one, and the result builds; repeating init changes nothing.",
  ["histories","configurations"],"every subset and content variant of pre-existing project files, every host argument, up to two init calls, then a build",
  "Tests init an empty folder.",
  ["runners/init.py"],[("existence checks","runners/init.py")],["project folder"])
p("C21","External files are only ever installed when their integrity matches",
  "For every sequence of configuration changes, local modifications, server answers and network failures, an external file present after a successful build has the configured integrity; a mismatching or failed download fails the build without leaving a wrong or partial file in its place or temporary files behind; files dropped from the configuration are removed once and later builds still work; matching files are not downloaded again.",
  ["fault_sequences","histories"],"every sequence of configuration, server-answer and local-modification events up to a length bound",
  "The only tests need the network and check success paths.",
  [COLD],[("integrity check before rename",COLD),("external file state",COLD)],["the external file on disk, build() outcome, requests made"],
  [("external files state","signature at which integrity was last verified","out/external_files_state.json")])
p("C22","Type-hint lines are commented out whole, and nothing else is",
  "Each source line that ends with a comment consisting only of the type-hint marker contributes no code to the published module, every other line's code is kept unchanged and in order, and comments that merely contain the marker among other text have no effect.",
  ["programs"],"every sequence of lines over an alphabet of code, strings, comments and marker forms up to a length bound",
  "Tests check two fixed files.",
  ["build/js/manips/type_hints.py"],[("line buffering","build/js/manips/type_hints.py")],["out/www/js"])
p("C23","Inline data images in CSS are published as equal files",
  "Every data-image url in a stylesheet, in any legal spelling, is replaced by a root-relative versioned url of a generated file that holds exactly the decoded bytes of the data url and an extension matching its type; other urls and data of other types are not touched, and no two different images of one project share a file.",
  ["inputs"],"every data url of a bounded grammar (types, parameters, base64 or percent encoding, quoting) in every url position of a stylesheet alphabet",
  "Tests check one SVG.",
  ["build/css/manips/outline_image_data.py","build/css/manips/version_urls.py"],[("data url parsing","build/css/manips/outline_image_data.py")],["out/www css and img/gen"])
p("C24","Scanning a file predicts exactly what building it does",
  "For every source file the products announced by scanning are exactly those building it produces or reuses, and the dependencies announced by scanning are exactly those building reports, so that scheduling and staleness decisions are based on the truth.",
  ["inputs"],"every source file of the bounded grammars used for the other properties, in every handler",
  "Tests never compare the two.",
  ["build/scan_file.py","build/build_file.py","build/handlers/"],[("scan and build passes share manipulators","build/handlers/")],["scan_file and build_file results"])
p("C25","HTML processing preserves the document",
  "For every page without build commands, the published page parses to the same document as the source - same doctype, elements, attributes, text and comments in the same order - apart from the documented link, script, style, canonical and image rewrites, the charset declaration, the spelling of boolean attributes, and trailing white space. Pages repaired by the parser to a tree that no text parses to are left out. Processing is independent of other pages.",
  ["inputs"],"every page over an alphabet of elements, attributes, entities, comments, raw-text elements and unicode up to a length bound",
  "Tests compare a few fixed pages.",
  ["build/html/tokenizer.py","build/html/builder.py","build/html/manipulate_and_serialize.py"],[("token stream and manipulators","build/html/builder.py")],["out/www html"])
p("C26","Image glue modules and their placeholders stay in step with the JSON",
  "Each .images.json source publishes a sibling .images.js module whose default export lists, for every named image, its settings and existing outputs as requested, and (unless disabled) gets a placeholder in src exactly when none exists; user-written siblings are never overwritten, an invalid JSON fails the build, and edits, deletions and image changes are reflected by the next build, including in versions carried by importers.",
  ["histories","inputs"],"every history over small variants of the JSON, the placeholder and the image, and every JSON of a bounded grammar",
  "Tests build one glue file twice.",
  ["build/handlers/image_glue.py",HOT],[("placeholder graph",HOT),("glue generation","build/handlers/image_glue.py")],["out/www .images.js and src .images.js"])
p("C27","Look-ahead readers never lose, repeat or alter input",
  "For every text, every chunking of the underlying stream and every sequence of peek and read calls, the readers return exactly the characters of the (newline-normalised, where documented) text in order: peeking never advances, reading n gives the next n or all that remain, and end of input is reported exactly at the end.",
  ["inputs","histories"],"every text up to a length bound over letters, CR, LF, FF and surrogates, every peek/read sequence up to a depth bound",
  "The readers are only exercised through whole-file tests.",
  ["build/ioutil.py"],[("buffered peeking","build/ioutil.py"),("newline preprocessing","build/ioutil.py")],["PeekableTextIO and PreprocessedTextIO"])
p("C28","Building never changes the sources",
  "Whatever the sources and prior state, and whether the build succeeds or fails, a build leaves every file and folder below src exactly as it was, except for adding declared placeholders and configured external files.",
  ["histories","inputs"],"every transition explored for the incremental-build and failure properties, comparing src before and after",
  "Tests compare outputs, not sources.",
  ["build/html/manips/outline.py","build/handlers/image_glue.py",HOT],[("temporary outline files removed","build/html/manips/outline.py")],["listing and bytes of src before and after build()"])
p("C29","The development server serves exactly the published site, as it is now",
  "While serve or dev runs, a request for any path answers with exactly the bytes of the published file of that name (index.html for a folder), whether the site was built with copies or symlinks, with the type a browser needs for its kind whatever the system's own tables say, with 404 (or the site's own 404 page) if there is none, never with a file from outside the published folder; and after every rebuild, also for clients which revalidate a cached answer, with the new contents.",
  ["inputs","histories"],"every published file and request path over an alphabet of segments and escapes, every validator, every rebuild between small site states under a running server",
  "Tests never send a request.",
  ["http_server.py","runners/run.py","runners/dev.py"],[("static file serving","http_server.py"),("type table","http_server.py")],["HTTP responses"])
p("C30","Artifacts are reproducible and sufficient to build from",
  "The artifacts of a project do not depend on the order in which the workers run, the mode, the folder or the process, up to the numbering of targets; a build from nothing but the sources and kept artifacts publishes the same site without writing, adding or removing any artifact that is still used.",
  ["histories","schedules"],"every project over small lists of image settings, commands and glue files, two orders of the workers, both modes, several folders, and every way of keeping artifacts of one or both pictures",
  "Tests compare one artifact folder once.",
  ["build/html/manips/images/","build/handlers/image_glue.py",HOT],[("artifact metadata","build/html/manips/images/metadata.py"),("target reuse","build/html/manips/images/exporter.py")],["artifacts folder and out/www after builds"])
p("C31","Commands act on exactly the folder they are given and report failure",
  "Whatever the current folder (also one that cannot be written to) and however the project is named (relative, absolute, through a link, trailing slash), a command line does to that project what it does from inside it and changes nothing else: not the current folder, other projects, the sources or files around it. Its exit status is zero exactly if it did what it is for: a failing build, a missing, outdated or invalid configuration, a folder without anything to serve and invalid command lines end with a non-zero status, and clean removes nothing unless it was asked to or its question was answered with yes.",
  ["inputs","histories"],"every command line of the lists (build, clean, init, run with their options) x every way of naming the project x every state of the project",
  "Tests call the functions with one absolute folder.",
  ["main.py","runners/"],[("command dispatch","main.py"),("folder and options","runners/build.py"),("confirmation","runners/clean.py")],["exit status","tree of everything around the project"])
os.makedirs("/verif",exist_ok=True)
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
