prop('P01', 'Built containers are well-formed and give back exactly what was put in',
     '''Packing a set of files into a container file (one container, or a main container behind a second one) yields
     a file that an independent strict reader of the container format accepts (every block, address and size field
     consistent, nothing overlapping), and extracting it gives the same file names, modification/creation stamps the
     format carries and byte-for-byte contents. This holds for any number of files, any sizes and both the 32-bit
     and the 64-bit format.''',
     ['inputs'], 'every number of files (including none and more than one directory block holds), every file size '
     'around block and buffer boundaries, every name, one or two containers',
     'The tests build a handful of fixture products; block-boundary sizes, full directories and the second container '
     'are single points in a large space the fixtures never hit.',
     [S + 'container_writer.py', S + 'container_doc.py', S + 'container.py', S + 'container_reader.py'],
     [('block and directory writer', S + 'container_writer.py'), ('document chain reader', S + 'container.py')],
     technique='exhaustive enumeration of container layouts on the real writer/reader, strict independent parser as oracle',
     note='All layouts within the bound; the strict parser in mc/cfmt.py is trusted (cross-checked on the repository fixtures).')

prop('P02', 'Containers laid out by the platform (chained blocks) are read completely',
     '''A container in which the directory, the file attributes or the file bodies are split over any chain of blocks,
     in any physical order and with any block padding, extracts to exactly the stored names and bytes. The same
     holds when it is the first or the second container of a two-container file.''',
     ['inputs'], 'every split of every document into blocks, every physical order of the blocks, both formats, both '
     'positions', 'The tool itself never writes chained blocks for file bodies and the fixtures contain few; tests '
     'cannot enumerate fragmentations.',
     [S + 'container.py', S + 'container_reader.py', S + 'container_doc.py'],
     [('following the chain of blocks', S + 'container.py'), ('finding the second container', S + 'container_reader.py')],
     technique='exhaustive enumeration of block fragmentations and orders produced by an independent writer, read by the real reader',
     note='All fragmentations/orders within the bound.')

prop('P03', 'The compressed layer loses nothing: deflate streams and nested containers',
     '''Whatever file is put through the compressing stage inflates back to the same bytes, and any valid raw deflate
     stream (any block types, flush points, window sizes) found in a container is inflated completely. A member that
     is itself a container is opened to exactly its members at every nesting depth, and packing a directory gives a
     member that is opened again to the same directory.''',
     ['inputs'], 'every file size around the buffer sizes, every deflate encoding, every nesting up to the bound',
     'Fixtures hold a few well-behaved streams; the failure needs a particular relation of chunk boundary and '
     'deflate output.',
     [S + 'container_reader.py', S + 'container_writer.py', S + 'container.py'],
     [('chunked inflate', S + 'container_reader.py'), ('nested container detection', S + 'container_reader.py')],
     technique='exhaustive enumeration of sizes x deflate encodings x nesting on the real code, zlib and the strict parser as oracle',
     note='zlib in one piece is the oracle for streams.')

prop('P04', 'Brace files are read with exactly the structure and values they contain',
     '''Reading a brace file (the {…} serialization of 1C) yields exactly the tree of lists and atoms the text denotes:
     quoted strings keep every character including doubled quotes, braces, commas and line ends, base64 payloads keep
     all characters, nothing is merged, split, dropped or reordered. It does not depend on the layout of line ends,
     the byte order mark or the code page the file is in.''',
     ['inputs'], 'every document of the grammar up to the size bound, every string content, every encoding variant',
     'The tests read a few dozen sample lines; the reader is a line-oriented state machine whose failures need a '
     'particular character at a particular place of a line.',
     [S + 'json_container_decoder.py', S + 'helper.py'],
     [('line-oriented brace parser', S + 'json_container_decoder.py'), ('code page detection', S + 'helper.py')],
     technique='exhaustive enumeration of documents up to a size bound, differential against an independent character-level reader',
     note='All documents within the bound.')

prop('P05', 'Brace files are written so that the same tree is read back',
     '''Writing any tree of lists and atoms as a brace file and reading it (with this tool or an independent reader)
     gives the same tree, whatever strings and base64 payloads it contains. The line layout is the one 1C files use,
     so re-writing an unchanged file does not change it beyond line ends.''',
     ['inputs'], 'every tree up to the bound, every string over the significant characters, every payload length',
     'Round trips in the tests only cover trees that occur in the fixtures.',
     [S + 'json_container_decoder.py', S + 'helper.py'],
     [('brace writer', S + 'json_container_decoder.py')],
     technique='exhaustive enumeration of value trees, written by the real code and read back by two readers',
     note='All trees/strings/lengths within the bound.')

prop('P06', 'Splitting modules into include areas and joining them back loses no code',
     '''Extraction moves the code of every include area into the file its name denotes (read-only includr areas are
     left to their owner) and keeps everything else in place; building puts the files back so that the module text is
     the one that was extracted, however areas are nested and wherever the directory file moves them. Fragments
     edited by hand (without final newline, with BOM or CRLF) join to the text they denote.''',
     ['inputs', 'configurations'], 'every nesting of code, ordinary areas, include and includr areas, every area name '
     'form, every directory-file redirection', 'The tests have one or two sample modules; loss shows only for '
     'particular nestings and names.',
     [S + 'organizer_code.py', S + 'organizer_file.py', S + 'index.py'],
     [('area splitter/joiner', S + 'organizer_code.py'), ('area name to path', S + 'organizer_code.py')],
     technique='exhaustive enumeration of area forests, real split and join against a reference splitter',
     note='All forests within the node bound under each directory-file setup.')

prop('P07', 'Dynamic directives are put in on build and taken out on extraction',
     '''Building puts the directive named by the nearest enclosing include area in front of every //DynamicDirective
     marker of the included code, and only there; extraction removes it again, leaving fragments as they were. Areas
     that name no directive inherit the enclosing one, and an area's directive never leaks to its neighbours.''',
     ['inputs'], 'every nesting of areas with and without directives and markers at every position',
     'One sample in the tests; the rule is about nesting.',
     [S + 'organizer_code.py'], [('directive substitution', S + 'organizer_code.py')],
     technique='exhaustive enumeration of area forests with directives, real build/extract against a reference',
     note='All forests within the node bound.')

prop('P08', 'Splitting form elements into include files and joining them loses no element',
     '''Extraction moves the subtree below every element named include_… (its elements, their data and pages) into the
     file the name denotes and leaves the rest in the form file; building puts it back so that the element document
     is the one that was extracted. includr_… subtrees are read from their owner's file and never written.''',
     ['inputs', 'configurations'], 'every tree of fields, groups and panels with pages, every placement of include areas',
     'Only a couple of fixture forms use areas; the addressing of element data by path breaks for particular shapes.',
     [S + 'organizer_form_elem.py', S + 'organizer_code.py'],
     [('element area splitter/joiner', S + 'organizer_form_elem.py')],
     technique='exhaustive enumeration of element forests, real split and join against a reference',
     note='All forests within the node bound, at most 2 (3) areas per form.')

prop('P09', 'The directory file redirects exactly the files it names, both ways',
     '''Extraction puts every file where the merged directory files say: a listed file at its target, a file of a folder
     with "*" in the target folder unless it is listed itself (null or empty keeps it in place), every other file in
     place; building takes each file from there, the target winning over a local copy, whatever order workers finish
     in. Directory files of submodules are merged with later ones and the main one winning, and one that cannot be
     understood, or a target that does not exist, is an error.''',
     ['configurations', 'inputs', 'schedules'], 'every combination of listing, "*", null, rename and nested folders, '
     'every leftover local copy, every completion order',
     'The tests have one directory file; precedence questions are combinations.',
     [S + 'index.py', S + 'organizer_file.py', S + 'helper.py'],
     [('lookup on extraction', S + 'index.py'), ('collection on build', S + 'organizer_file.py'),
      ('merging', S + 'helper.py')],
     technique='exhaustive enumeration of directory files x leftovers x completion orders on the real code against a reference',
     note='All option combinations for 3+1 files in two nested folders.')

prop('P10', 'Updating the directory file only adds what is missing',
     '''Updating a directory file keeps every entry it has, adds exactly one entry for each source file not listed yet
     (empty, or the same path under the shared folder if one is given; version suffixes are not part of the name) and
     leaves the sources alone; doing it twice changes nothing. The updated file redirects what it says on extraction
     and a build with it gives the same product.''',
     ['inputs', 'configurations', 'histories'], 'every small source tree, every partial existing directory file, '
     'with/without shared folder, plain and versioned names', 'No test covers the update.',
     [S + 'index.py', S + 'helper.py'], [('index update', S + 'index.py')],
     technique='exhaustive enumeration of source trees x existing indexes on the real code against a reference, followed by extraction and build',
     note='Known finding: Configuration.4/8/9/10.json.')

prop('P11', 'Extracting at several configuration versions keeps and selects the right files',
     '''Extracting with a configuration version stores under that version exactly the files inside the source folder
     that differ from the nearest lower stored version and leaves the files of other versions alone; files outside
     the source folder carry no version. A build for a version uses for every file (modules, areas, form elements,
     others) the nearest stored version not above it.''',
     ['histories', 'inputs'], 'every sequence of extractions (any versions, repeated, in any order, any contents) and '
     'builds for every version', 'The tests call single helper functions on three files; the rule is about histories.',
     [S + 'organizer_file_ce.py', S + 'organizer_file.py', S + 'organizer_code.py', S + 'organizer_form_elem.py',
      S + 'helper.py'],
     [('version store', S + 'organizer_file_ce.py'), ('nearest version', S + 'helper.py')],
     state=[('stored versions', 'files with a version suffix in the source folder', S + 'organizer_file_ce.py')],
     technique='explicit-state exploration: all extraction histories up to a depth, model of the version store compared after every step and 8 builds after each history',
     note='Histories of up to 3 (4) extractions over 4 versions; every file kind.')

prop('P15', 'Every metadata object survives extraction and build',
     '''Whatever objects a configuration, extension, external processing or report consists of (any kind, any
     combination of modules, help, predefined data, forms, templates, commands and nested objects, any names, comments
     and tables of contents, stored plainly or with a version), extracting it and building the sources again gives a
     product with the same members and the same content in each: no object, nested object, module or table-of-contents
     entry is lost, added, swapped or attached to another owner. Documented normalisations (line ends, order of nested
     objects with auto_include, random version stamps) are not differences.''',
     ['inputs', 'configurations'], 'every kind x every subset of its members x nested objects x tables of contents x '
     'root members x platform generations', 'The tests extract and rebuild a handful of recorded products without '
     'most of the kinds and most combinations.',
     [S + 'decoder.py', S + 'MetaObject/__init__.py', S + 'MetaDataObject/', S + 'organizer_file.py', S + 'helper.py'],
     [('decode and encode of an object', S + 'MetaObject/__init__.py'), ('products', S + 'MetaDataObject/core/'),
      ('kinds', S + 'MetaDataObject/'), ('table of contents', S + 'MetaDataObject/core/Container.py')],
     technique='exhaustive enumeration of generated products (independent generator of 1C products), real extract and build, member by member comparison with the generated product',
     note='All 45 top-level and 30+ nested kinds, every member subset, <=2 nested objects per kind, fixtures too.')

prop('P17', 'The name prefix is taken off and put on exactly where documented',
     '''With a prefix given, extraction takes it off the names of own (not borrowed) top-level objects and building puts
     it on the same names; names of nested objects, of borrowed objects and of the product, and everything else in the
     files, stay as they were. Hence extracting and building with the same prefix gives back every name that carried
     it, and building with another prefix changes only the names of own top-level objects (and the prefix an extension
     declares).''',
     ['inputs', 'configurations'], 'every kind of object at every level, own or borrowed, names that carry the prefix '
     'once, twice, elsewhere or in another case, prefix given on extraction, on build, on both, different',
     'No test uses the option.', [S + 'helper.py', S + 'MetaDataObject/__init__.py', S + 'MetaObject/'],
     [('names in headers', S + 'helper.py (decode_header, encode_header)')],
     technique='exhaustive enumeration of products x names x prefix options, real extract and build compared with the renamed product',
     note='All kinds, 7 names, 9 prefix pairs. Names equal to the prefix are excluded.')

prop('P18', 'With auto_include the product consists of the folders in the sources',
     '''With auto_include the tables of contents of the built product and of every object in it list exactly the objects
     whose folders are in the sources, kind by kind in the order of their names, with the identifiers from their id
     files: an object removed from the sources is gone, an object copied from the sources of another product is
     there with all it holds, also when it is the last or the first of its kind, and everything else is unchanged.''',
     ['inputs', 'histories'], 'every kind at every level, every subset of objects removed, brought from another product '
     'or given another identifier', 'The tests never change the extracted sources before building.',
     [S + 'MetaObject/__init__.py', S + 'MetaDataObject/__init__.py', S + 'decoder.py'],
     [('filling tables of contents', S + 'MetaObject/__init__.py'), ('collecting nested objects', S + 'decoder.py'),
      ('identifiers', S + 'MetaDataObject/__init__.py')],
     technique='exhaustive enumeration of edit scripts over extracted sources (remove, bring, re-identify), real build compared with the generated product of the edited description',
     note='<=2 (3) objects per kind, <=2 brought; every kind and level.')

prop('P19', 'Compatibility mode and version stamps change exactly one place',
     """A compatibility mode given as an option (on extraction or on build) is the one the sources or the product get,
     otherwise the one they had stays. The stamp of the product version is put exactly behind "ver:" of the comments
     that ask for it (product comment of extensions and external processings, comments of built-in processings) and in
     the version field of an extension; nothing else in the product changes, and nothing is carried over to another
     product built with the same options. Sources written by another major or minor version of the tool are refused
     before anything is written, those of another patch version are built.""",
     ['inputs', 'configurations', 'histories'], 'every kind of product, every combination of places the value can be '
     'given, every form of comment, products built one after another', 'The tests do not set these options.',
     [S + 'MetaDataObject/core/', S + 'MetaDataObject/DataProcessor.py', S + 'decoder.py', S + 'v8unpack.py'],
     [('compatibility mode, version stamps', S + 'MetaDataObject/core/'), ('version check', S + 'decoder.py')],
     technique='exhaustive enumeration of option placements x comments x product sequences, real extract and build compared with the product the options describe',
     note='All combinations of <=4 (6) values per place.')

prop('P20', 'Directives are commented out for old platforms only, and back',
     """In modules of platform 8.1/8.2 products and of ordinary forms, lines that begin with a directive (area, &At…)
     are in the product as "// v8unpack …" comments and in the sources as directives; the first line is never touched
     (documented), nor is any other line, nor any module of other platforms, managed forms or nested modules. So the
     text a developer writes is the text he gets on the next extraction.""",
     ['inputs', 'configurations'], 'every text of a few lines of all relevant kinds in every place of a module',
     'One fixture per platform; the rule depends on place and kind of the line.',
     [S + 'MetaObject/__init__.py', S + 'MetaDataObject/'],
     [('escaping', S + 'MetaObject/__init__.py')],
     technique='exhaustive enumeration of texts up to a number of lines in every place, real extract, edit, build, extract against a reference',
     note='<=3 (4) lines from 12 kinds, 39 places.')

prop('P21', 'Command line and product file do what their parameters say',
     """Every command (-E, -B, -I and, for the products of a product file, -EA, -BA, -IA) does exactly what the function
     does with the parameters given, for every combination of options (0 and empty values included), absolute,
     relative and bare paths. Of a product file exactly the enabled products are processed, or just the one asked for,
     even if disabled, each with its own parameters. A given temporary folder is cleared first and kept, otherwise
     nothing temporary is left; a command that cannot be carried out ends with a non-zero exit code and changes no
     input. Whatever folders are named for sources, product, results and temporary files - one inside another, the
     current one, through links - what a command is to read is not removed.""",
     ['inputs', 'configurations', 'histories'], 'every combination of options and ways to write paths, every product '
     'file of a few products', 'Tests call the functions with one set of parameters; the command line is not tested.',
     [S + 'v8unpack.py', S + '__main__.py', S + '__init__.py', S + 'helper.py'],
     [('command line, product file', S + 'v8unpack.py')],
     technique='exhaustive enumeration of command lines and product files, run on the real code and compared file by file with the functions; a sample replayed as real processes',
     note='All option combinations; product files of <=2 (3) products; all pairs of nested places for results and temporary files.')

prop('P16', 'What is in a source file is what the member of the product holds',
     """Every payload of a product (module, form module, template, picture, help, predefined data, flowchart, schedule,
     …, encrypted modules included) is in exactly one source file, byte for byte, or text for text for what is text,
     whatever it contains. What a developer writes into that file, in any of the usual encodings and line ends, is
     what the member of the built product holds, in the encoding it had, and nothing else in the product changes; an
     emptied or removed module file is an empty module.""",
     ['inputs', 'histories'], 'every payload of every kind of object and product, every content from a list of '
     'significant ones (empty, serialization syntax, line ends, base64 block sizes, code pages, sizes at thresholds)',
     'The tests extract and build recorded products without editing, and look at few payloads.',
     [S + 'MetaObject/__init__.py', S + 'MetaDataObject/', S + 'helper.py'],
     [('modules, help, pictures', S + 'MetaObject/__init__.py'), ('templates', S + 'MetaDataObject/Template.py'),
      ('text and code pages', S + 'helper.py')],
     technique='exhaustive enumeration of payloads x contents, real extract, edit, build and extract again compared with the generated product',
     note='All payloads of all kinds; 37 texts, 33 byte strings.')

prop('P13', 'Failing file operations and cut-off product files are reported',
     """Whatever single file operation of a command (extract, build, descent, update of the directory file) fails, with
     its repetitions failing too, the command either ends with an error that says something or has done everything it
     was to do: nothing missing, nothing stale, nothing incomplete in sources or products. A failed command changes
     neither the product nor the sources it was given, and a failed build leaves the former product file. A product file cut off at any byte is refused (or nothing
     of it was missing).""",
     ['crash_points', 'inputs'], 'every file operation of every command over products that use every kind of payload; '
     'every length of a product file', 'Tests never make an operation fail and use whole products only.',
     [S + 'decoder.py', S + 'container_reader.py', S + 'container_writer.py', S + 'container_doc.py', S + 'helper.py',
      S + 'organizer_file.py', S + 'organizer_file_ce.py', S + 'json_container_decoder.py', S + 'index.py'],
     [('file operations', S + 'helper.py'), ('containers', S + 'container_doc.py'), ('stages', S + 'decoder.py')],
     technique='exhaustive fault injection: every recorded file operation of the real commands fails in turn, and every truncation of product files; end state compared with the undisturbed run',
     note='4 products x 9 set-ups, ~17k (23k) faults; 5 products at every length. Real processes with limited file size as conformance.')

prop('P14', 'Interrupted commands can be repeated, and commands do not depend on earlier ones',
     """However a command (extract, build, descent, update of the directory file) is ended - before or in the middle of
     any file operation - it has spoiled none of its inputs, the product file and the directory file are the former or
     the whole new ones, and running it again gives exactly what an undisturbed run gives, whatever is left in the
     temporary folder, the sources and beside them. Likewise any command after any sequence of commands (of other
     products, with other options, failed ones) sharing folders, process and options gives what it gives alone; two
     runs give identical sources.""",
     ['crash_points', 'histories'], 'every point at which the process can end, every torn write, every sequence of '
     'commands up to a depth', 'Tests run each command once, to its end, in an empty folder.',
     [S + 'v8unpack.py', S + 'decoder.py', S + 'container_writer.py', S + 'index.py', S + 'helper.py', S + 'organizer_file.py'],
     [('writing the product', S + 'container_writer.py'), ('directory file', S + 'index.py'), ('clearing folders', S + 'helper.py'),
      ('two-container products', S + 'decoder.py')],
     technique='exhaustive crash-point injection into the real commands (process ended before and inside every file operation) followed by a second run, and exhaustive command histories, compared with undisturbed fresh runs',
     note='4 products x 10 set-ups, ~13k crash points; sequences of <=3 (4) of 9 commands. Without loss of written data (no power loss model).')

prop('P12', 'Results do not depend on worker scheduling, worker count or listing order',
     """Extraction, build (with and without a directory file, include areas, descent mode) and the update of the
     directory file give the same result whatever the number of worker processes, the order in which tasks run and
     finish, what any two tasks do at the same time, and the order in which the operating system lists folders. Tasks
     running side by side never fail because of each other.""",
     ['schedules', 'configurations'], 'every order of tasks, every interleaving of file operations that do not commute, '
     'every order of directory entries', 'A test sees the schedules and the listing order of one machine.',
     [S + 'helper.py', S + 'decoder.py', S + 'organizer_file.py', S + 'organizer_code.py', S + 'container_reader.py', S + 'index.py',
      S + 'MetaDataObject/__init__.py'],
     [('pools', S + 'helper.py'), ('collecting results of tasks', S + 'decoder.py'), ('shared folders', S + 'index.py')],
     technique='stateless exploration of the real commands under a controlled scheduler: all task orders, all interleavings of conflicting file operations up to a preemption bound (partial-order reduction by recorded footprints), all listing orders',
     note='5 products x 9 set-ups; <=2 (4) preemptions per pair of tasks; orders of <=4 (5) tasks all, of more by moves and swaps. Tasks switch at file operations only.')

prop('P22', 'Forms: every element is listed, bound as it is, and survives extract and build',
     """Whatever a managed form consists of - elements of every kind in every nesting, attributes with columns, commands,
     parameters, in any number and order - extraction succeeds, its description lists each of them with its name, type,
     place and order, bound to the attribute or command it really is bound to (and to none where it is bound to something
     else that happens to have the same number), and the product built from the sources holds the same form, also when there is something in it the
     program does not know, and when groups or tables of it are areas (`include_`, `includr_`), one inside another too. The
     attribute of the owner's own type follows the form when its folder is moved to another object.""",
     ['inputs', 'structures'], 'every shape of element record the platform writes in every position, every forest of '
     'elements up to a bound, every set of attributes and commands with every kind of link',
     'Tests hold a few recorded forms and compare no description of their elements.',
     [S + 'MetaObject/', S + 'MetaDataObject/Form/', S + 'MetaDataObject/core/'],
     [('form descriptions', S + 'MetaDataObject/Form/')],
     technique='exhaustive enumeration of forms built of genuine platform records up to a size bound, real extract and build, description and product compared with the model the form was written from',
     note='Forests of <=3 (4) elements of all 6 kinds, <=5 (7) of groups and fields; all genuine record shapes of the recorded products.')

prop('P23', 'Elements shared by forms are bound to the attributes of each form',
     """Products whose forms share an include area of elements through common sources may number their attributes,
     columns and commands differently: whichever of them was extracted last and wherever the elements are nested, each product built
     from the common sources has the elements of the area bound to its own attributes and commands of the same names,
     elements that are bound to nothing of the form's are left as they are, and a form that lacks an attribute, column
     or command the area is bound to is refused with an error naming it, never bound to something else.""",
     ['inputs', 'configurations', 'histories'], 'every set of bound elements in an area, every nesting, every numbering '
     'in the other product, every order of extraction', 'Tests have one product per include area.',
     [S + 'MetaDataObject/Form/', S + 'organizer_form_elem.py'],
     [('relinking elements', S + 'MetaDataObject/Form/')],
     technique='exhaustive enumeration of pairs of products sharing an area x numberings x extraction histories on the real code, each built product compared with the model of the form it should have',
     note='Areas of <=2 (3) elements of 14 sorts; 3 numberings; include and includr.')

prop('P24', 'Ordinary forms: controls are listed and survive, renumbered consistently',
     """Whatever an ordinary form consists of - controls of every kind on the pages of nested panels, bindings of their
     borders to each other and to the panel, attributes and data sources - extraction succeeds and lists every control
     on its page with its data source, and the product built from the sources holds the same form. With
     auto_include it holds the same form with the controls grouped by page and numbered anew: every binding, reverse
     binding and data source refers to the control it did, whatever its path. Forms of several products sharing a panel
     or a whole page as an include area keep it bound to their own attributes and on the page it has in each, and lacking an attribute are refused. A form with controls the program does not
     know is kept as it is.""",
     ['inputs', 'structures', 'configurations'], 'every kind of control in every place, every forest of controls and panels over '
     'pages up to a bound, every binding between borders, every data source',
     'Tests hold a few recorded forms and check only that a build succeeds.',
     [S + 'MetaDataObject/Form/'], [('controls and panels', S + 'MetaDataObject/Form/')],
     technique='exhaustive enumeration of ordinary forms built of genuine platform records up to a size bound, real extract and build, compared with the model the form was written from (numbered anew with auto_include)',
     note='Forests of <=4 (5) controls and panels on 2 pages, <=3 (4) on 3; all pairs of sources, pairs (triples) of bindings; both form versions.')

prop('P25', 'The registers of a built product describe exactly what is in it',
     """Every product that is built keeps its registers right, whatever was changed in the sources before - objects, modules
     or other files added, removed or emptied: the list of members (`versions`) counts and names
     each member of the file exactly once and nothing else, with identifiers of their own; the list of checksums of an
     extension (`configinfo`) counts and names every other member with the checksum of the bytes that are stored; the description
     of the product itself that the root names is there. A source that cannot be built so is refused with an error.""",
     ['inputs', 'structures', 'configurations'], 'every product of the other checks, every file of every kind of object removed '
     'or emptied', 'The comparison of the tests leaves these registers out.',
     [S + 'MetaObject/', S + 'MetaDataObject/', S + 'container_writer.py', S + 'helper.py'],
     [('collecting the list of members', S + 'MetaDataObject/__init__.py'), ('checksums', S + 'container_writer.py')],
     technique='exhaustive enumeration of products and changes of their sources within a size bound, each built by the real code and its registers compared with the members an independent reader finds',
     note='Products of P15, P18, P19, P22, P24 as those checks bound them; single files (pairs) removed or emptied.')

prop('P26', 'Edits of the description of a form reach the product exactly',
     """The description of a form's elements (`*.elem.json`) is made to be edited and merged. Whatever is done to it - elements
     removed, added from another version of the form, moved into another group, table, panel or page or put in another order;
     attributes, columns, commands and parameters removed, added or put in another order; the first one of a list that
     was empty, the last one removed - the product built from the sources holds exactly the form the edited description
     describes: nothing that was added is left out, nothing removed stays, and the rest of the form is as it was.""",
     ['inputs', 'structures', 'histories'], 'every pair of versions of a form within a size bound, the description of the '
     'one edited into that of the other', 'Tests build what was extracted; none edits a description of elements.',
     [S + 'MetaDataObject/Form/', S + 'organizer_form_elem.py'],
     [('building forms', S + 'MetaDataObject/Form/')],
     technique='exhaustive enumeration of pairs of versions of a form within a size bound, description of the one edited into the other and built by the real code, compared with the model of the second version',
     note='Ordered selections of <=2 (3) of 3 attributes, columns, commands, parameters; forests of <=2 (3) elements into <=3; ordinary forms of <=2 controls and panels on 2 pages, with and without --auto_include.')
prop('P27', 'The sources depend on what the product holds and on nothing else',
     """The sources are kept under version control, so they change exactly where the product changes. Extracting the product built
     from the sources gives the same sources again, file for file and byte for byte; the same members stored in any other way -
     order, size of addresses, blocks, time stamps, packing, line ends - and unpacked from and to any place give the same
     sources; with `--auto_include` so does any other order of the objects. A change of a comment, a synonym, a module, a
     template or a help page of one object changes files in that object's folder only, and with `--auto_include` so does
     adding, removing, renaming an object or giving it another identifier. The other way round, the same JSON written in
     another way, line ends changed by version control and files that are no sources of anything do not change the product.""",
     ['inputs', 'configurations', 'histories'], 'every product within a size bound, every way it may be stored, every single '
     'change of it', 'Tests extract a file and build it again; none compares the sources of two products.',
     [S + 'decoder.py', S + 'MetaDataObject/', S + 'container_reader.py', S + 'helper.py'],
     [('extracting and building', S + 'v8unpack.py')],
     technique='exhaustive enumeration of products within a size bound, of ways to store them and of single changes; the real extraction and building run on each and the source trees compared',
     note='Lists of members with the identifiers of their versions and the checksums (P25) are left out: they change at every build. Ordinary forms with --auto_include are compared after one building, which numbers their controls.')

prop('P28', 'A command leaves nothing behind but its result',
     """After a command (extract, build, descent, update of the directory file) - carried out, or ended with an error by any single
     file operation failing - the program that called it is as it was: no worker process is left running, no file open, the
     working directory, the environment, the search path, the standard streams are unchanged, and so are the options and
     other parameters it passed. On the disk nothing is added, changed or removed but the result in the folders named (and
     the folders of shared code) and the temporary folder given; when none is given, a command carried out leaves nothing
     temporary.""",
     ['inputs', 'configurations', 'faults'], 'every failure point of every command, with and without a folder for temporary files',
     'Tests look at the result of a command, and end with the process.',
     [S + 'v8unpack.py', S + 'helper.py', S + 'container_writer.py', S + 'container_reader.py'],
     [('extracting and building', S + 'v8unpack.py')],
     technique='exhaustive fault injection: every file operation of every command failing in turn on the real code, the state of process and disk compared with the one before; real processes with real workers for conformance',
     note='The temporary folder a failed command made for itself stays: it holds what an error is looked for in.')
