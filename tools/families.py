fam('C01 C02 C03 C04 C05 C06 C08 C09 C10',
    'TLA+/TLC: Pipeline.tla (abstract spec), Driver.tla (design model, all fault points), trace validation of the real driver',
    'Scenario universes: exhaustive small inputs/ranges/faults plus seeded random acyclic graphs and boundary sizes.')
fam('C11 C12',
    'TLA+/TLC: MultiFile.tla (abstract spec), Align.tla (design model of the swap map), trace validation of reads of real directories',
    'Scenario universes: all pairs of short headers, seeded random directories, failures while opening and reading.')
fam('C13 C14',
    'TLA+/TLC: BufReader.tla (abstract spec), BufImpl.tla (design model, all piece sizes and failures), trace validation of the real reader',
    'Scenario universes: exhaustive short operation sequences and byte strings, seeded random ones around the 8192 byte buffer.')
fam('C15 C16',
    'TLA+/TLC: DcFormat.tla (byte-level layout, reader state machine), DcDesign.tla (round trip and every cut, exhaustive), trace validation of real files',
    'Scenario universes: all type tuples up to 3, null patterns, length boundaries, truncation, input failure and damage at every byte of small files.')
fam('C17 C18 C19 C20 C21',
    'TLA+/TLC: CsvText.tla, Time.tla, CsvIn.tla (record grammar, guesses, column choice, epoch and calendar arithmetic), CsvDesign.tla, TimeDesign.tla, trace validation of real reads',
    'Scenario universes: short texts over the csv alphabet, all pairs of header names and typed values, unit boundaries, clock changes of five zones over 2008-2036, every recognised format.')
fam('C22',
    'TLA+/TLC: RangeTime.tla over Time.tla and Digits.tla (meaning of every notation), TimeDesign.tla (calendar and zones), validation of the parsed times',
    'Scenario universes: unit and length boundaries, the product of all notations and zones, clock changes, edited texts.')
fam('C23 C24',
    'TLA+/TLC: Container.tla (parts of a container and what every cut or change of it may yield), FrameDesign.tla (why a frame reader notices them), trace validation of real reads',
    'Scenario universes: all container options of lib/containers.py times data sizes around the internal buffers, every cut of small files and cuts around part ends and buffer sizes of large ones, flips of bytes of checksummed ones.')
fam('C25',
    'TLA+/TLC: CsvOut.tla (layout, quoting, times, exact decimals of floating point by their rounding interval), CsvOutDesign.tla (written text reads back, against the grammar of CsvText.tla), trace validation of real outputs',
    'Scenario universes: all combinations of style, unit, zone, name and delimiter, boundary numbers of every type, times over the whole range and around clock changes.')
fam('C26',
    'TLA+/TLC: Detect.tla (one decision at a time: transport, packing, name, signature, contents), DetectDesign.tla (all decisions in small worlds against order-free statements of what they should come to), trace validation of real inputs',
    'Scenario universes: names and formats times packings and contents, odd beginnings of contents, standard input, random sets of readers and transports of the user.')
fam('C27',
    'TLA+/TLC: Cli.tla (arguments, and what they come to, over Detect, CsvIn, DcFormat, MultiFile, RangeTime and CsvOut), CliDesign.tla (every spelling and order of short command lines; merging against reading one row at a time), validation of whole runs of the tool',
    'Scenario universes: seeded random inputs, directories, packings, options in every spelling, environments, outputs that exist or fail, one fault of seventeen kinds in four of ten runs.')
fam('C28',
    'TLA+/TLC: Http.tla (responses byte for byte: framings, redirects, what a cut-off leaves; then Detect, CsvIn, DcFormat for what is read), HttpDesign.tla (every cut of every framing of small contents, taken in all pieces), validation of reads of the real code from a server on the loopback network',
    'Scenario universes: seeded random contents, framings, statuses, redirects, every cut of one small response per framing, cuts around chunk borders and of responses larger than the buffers.')

fam('C07',
    'TLA+/TLC: Pipeline.tla and Driver.tla for flushes through graphs, Output.tla for the real csv and binary outputs with destinations that fill up, OutputDesign.tla (a buffer in front of any destination, exhaustive), trace validation of the real driver and the real outputs',
    'Scenario universes: seeded random acyclic graphs, every fault place of small runs, outputs with every capacity of small files and around the buffer size of large ones.')
fam('C29',
    'TLA+/TLC: Stream.tla (what may have been read, held and kept from the outputs for so many rows), StreamDesign.tla (a chain of buffers around an unpacking of whole units, all piece sizes, held back anywhere), trace validation of byte counts, heap and output lengths while the real code reads inputs without an end, and of what comes out of held-back servers and pipes',
    'Scenario universes: seeded random contents, 11 packagings times block sizes from one row to 60 KB, pieces from 333 bytes on, merges of up to five inputs, filters, outputs, directories of 400 files, archives, gates in http responses and standard input.')
fam('C30',
    'TLA+/TLC: Graph.tla (which graphs are consistent, what a run over any graph looks like), GraphDesign.tla (the examination of all small graphs, chain by chain, in lock step), trace validation of real runs',
    'Scenario universes: all pairs of small chains, numbers of inputs, headers and chains, merges with every surplus and shortage, diamonds, circles, seeded random graphs with up to three changes.')
