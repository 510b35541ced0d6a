#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
L = 'src/libiff/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

p('C01', 'Reading reproduces exactly the chunk structure stored in the stream',
  'For every byte stream whose chunks are complete, the hierarchy obtained by reading it contains exactly the chunks in the stream: the same identifiers, sizes, group types, payload bytes, order and nesting, with the PROP chunks lying directly in a LIST kept apart in their order, and every sub chunk linked to the group that holds it. This does not depend on whether the file conforms to the IFF rules: unusual identifiers, non-zero padding bytes, sub chunks that overrun their group and bytes after the main chunk do not change what is read.',
  ['inputs'], 'every byte stream that holds a complete main chunk: any identifiers, any payload size, any number and depth of nested groups',
  'The tests read about ten fixed small files written by the library itself; odd sizes, payloads beyond a few bytes, many children, deep nesting, unusual identifiers and foreign files are not reached.',
  [L+'chunk.c', L+'group.c', L+'list.c', L+'rawchunk.c', L+'io.c', L+'iff.c'],
  [('IFF_readChunk dispatches on the identifier and reads fields, skips the rest and the padding byte', L+'chunk.c'),
   ('readGroupSubChunks / readListSubChunks count the processed bytes until the group is full', L+'group.c, '+L+'list.c'),
   ('IFF_attachToGroup and addPropToList store the child and set its parent', L+'group.c, '+L+'list.c')],
  [('bytesProcessed', 'bytes of the body of the current group consumed so far', L+'group.c')], ['IFF_read', 'IFF_readFd', 'IFF_readFile'])

p('C02', 'Truncated input yields nothing, and no input crashes or hangs the reader',
  'If the input ends, or a read error occurs, before the last byte that the main chunk requires (body and padding byte of every chunk at every level included), reading returns no hierarchy and leaves no memory allocated. No byte sequence whatsoever, including negative, overlapping and absurdly large sizes, makes reading, checking or freeing the result access memory outside its objects, crash or run forever.',
  ['inputs', 'fault_sequences', 'crash_points'], 'every prefix of every file, a read error at every read operation, and arbitrary byte sequences',
  'The tests contain a single file with a negative size and no truncated or failing input; the guarantee quantifies over every cut point and every malformed size.',
  [L+'chunk.c', L+'group.c', L+'list.c', L+'rawchunk.c', L+'io.c', L+'field.c'],
  [('readChunkBody frees the partial chunk when fields, skipping or padding fail', L+'chunk.c'),
   ('every primitive read reports a short read', L+'io.c'), ('allocation failure of a payload makes creation fail', L+'rawchunk.c')],
  [], ['IFF_read', 'IFF_readFd', 'IFF_check', 'IFF_free'])

p('C03', 'Writing produces the standard IFF encoding of the hierarchy',
  'Writing a hierarchy whose sizes are consistent produces exactly its IFF-85 encoding: per chunk the four identifier bytes, the size as a 32-bit big-endian number, the body (for a group its type followed by its sub chunks, for a LIST its PROP chunks before its other sub chunks) and one zero padding byte after each odd-sized body, and nothing else.',
  ['inputs', 'programs'], 'every hierarchy with consistent sizes that the API can build or read',
  'The tests compare the written file with itself after reading it back, so an error shared by reader and writer goes unnoticed; only a few small hierarchies are written.',
  [L+'chunk.c', L+'group.c', L+'list.c', L+'rawchunk.c', L+'io.c'],
  [('IFF_writeChunk', L+'chunk.c'), ('IFF_writeGroup, writeListPropChunks', L+'group.c, '+L+'list.c'), ('IFF_writePaddingByte, IFF_writeZeroFillerBytes', L+'io.c')],
  [], ['IFF_write', 'IFF_writeFd', 'IFF_writeFile'])

p('C04', 'Writing and reading back are inverse',
  'A hierarchy with consistent sizes that is written and read back yields an equal hierarchy, and the comparison function confirms it. A file that conforms to the IFF rules, has zero padding bytes and has the PROP chunks of each LIST in front is reproduced byte for byte when it is read and written again.',
  ['inputs', 'programs'], 'every hierarchy with consistent sizes and every conforming file',
  'The tests do this for nine fixed hierarchies without odd nesting, empty chunks, large payloads or several PROPs.',
  [L+'iff.c', L+'chunk.c', L+'group.c', L+'list.c'],
  [('read and write use the same per-type handlers and field order', L+'chunk.c')], [], ['IFF_write then IFF_read then IFF_compare'])

p('C05', 'A successful write means that every byte was stored',
  'Writing reports success only if the complete encoding has been accepted by the destination; whenever any output operation fails, at whatever byte and even only when buffered data is flushed or the file is closed, writing reports failure. Whatever reached the destination before the failure is a prefix of the encoding, and the hierarchy stays intact and can be written again.',
  ['fault_sequences', 'crash_points'], 'a failure at every output operation and every capacity of the destination, for every hierarchy and kind of destination',
  'No test makes an output operation fail.',
  [L+'iff.c', L+'io.c', L+'rawchunk.c', L+'chunk.c', L+'group.c', L+'list.c'],
  [('every primitive write checks its result', L+'io.c'), ('status conjunctions propagate a failure', L+'chunk.c'), ('flush and close are checked', L+'iff.c')],
  [], ['IFF_write', 'IFF_writeFd', 'IFF_writeFile'])

p('C06', 'The conformance verdict is exactly the IFF structure rules',
  'Checking accepts a hierarchy exactly if its main chunk is a FORM, CAT or LIST and every chunk in it satisfies the rules: legal identifiers and types; no PROP inside a FORM; only data chunks inside a PROP; only FORM, CAT and LIST chunks inside a CAT or beside the PROPs of a LIST, each having the contents type of its holder unless that is JJJJ; and every group size equal to the size of its actual contents. A single violation anywhere in the hierarchy, at any depth and position, leads to rejection, and a hierarchy without one is never rejected.',
  ['inputs', 'programs'], 'every hierarchy, read or built, with any single violation or combination of violations at any position',
  'About twenty fixed files with one violation at the top; the verdict must be right for a violation at every position and depth, and for every conforming hierarchy.',
  [L+'iff.c', L+'chunk.c', L+'group.c', L+'form.c', L+'cat.c', L+'list.c', L+'prop.c', L+'id.c'],
  [('IFF_check, IFF_checkChunk', L+'iff.c, '+L+'chunk.c'), ('IFF_checkGroup with per-type sub chunk predicates', L+'group.c'), ('IFF_checkCATSubChunk', L+'cat.c'), ('IFF_checkGroupChunkSize', L+'group.c')],
  [], ['IFF_check'])

p('C07', 'Legality of identifiers and form types',
  'An identifier is legal exactly if its four characters lie in 0x20..0x7e and the first is not a space. A FORM or PROP type is legal exactly if it is a legal identifier without lowercase letters or full stops and is none of the reserved words: LIST, FORM, PROP, CAT and JJJJ, and LIS, FOR and CAT followed by a digit 1 to 9.',
  ['inputs'], 'all 2^32 four-byte values',
  'Six fixed values are tested.',
  [L+'id.c', L+'form.c'], [('IFF_checkId', L+'id.c'), ('IFF_checkFormType', L+'form.c')], [], ['IFF_checkId', 'IFF_checkFormType', 'IFF_check'])

p('C08', 'Comparison is exact structural equality',
  'Two hierarchies compare equal exactly if they have the same shape and agree in every identifier, size, group type, PROP list, order of sub chunks and payload byte (for application-defined chunks: in what the comparison handler of the type compares). A difference in any single one of these anywhere makes them unequal; comparison is symmetric and every hierarchy equals itself and its copies.',
  ['inputs', 'programs'], 'every pair of hierarchies, in particular every single-point difference',
  'The tests only compare equal pairs.',
  [L+'chunk.c', L+'group.c', L+'list.c', L+'rawchunk.c', L+'iff.c'],
  [('IFF_compareChunk', L+'chunk.c'), ('IFF_compareGroup', L+'group.c'), ('compareListPropChunks', L+'list.c'), ('IFF_compareRawChunk', L+'rawchunk.c')],
  [], ['IFF_compare'])

p('C09', 'Form search finds exactly the matching forms in document order',
  'Searching a hierarchy for one or more form types returns exactly the FORM chunks with one of those types that are not inside another matching FORM, each once and in document order, looking through FORM, CAT and LIST chunks at any depth but not into PROP chunks. The reported count equals the number of results and is zero if nothing matches.',
  ['inputs', 'programs'], 'every hierarchy, start chunk and set of form types',
  'Three small hierarchies are searched for types present once or a few times.',
  [L+'group.c', L+'form.c', L+'cat.c', L+'list.c'],
  [('IFF_searchFormsFromArray', L+'group.c'), ('IFF_searchFormsInForm', L+'form.c'), ('IFF_mergeFormArray', L+'form.c')], [], ['IFF_searchForms', 'IFF_searchFormsFromArray'])

p('C10', 'Property lookup: own chunk first, then the PROPs of the enclosing LISTs',
  'Looking up a chunk of a FORM by identifier yields the first such chunk directly in the FORM; otherwise, going outwards through the LIST chunks that enclose the FORM at any distance, the first such chunk in the first PROP of that LIST whose type equals the type of the FORM; otherwise nothing. Asking for all chunks with an identifier yields exactly the chunks directly in the FORM, in order, without shared properties.',
  ['inputs', 'programs'], 'every hierarchy, FORM in it and identifier',
  'Four fixed hierarchies; the interplay of depth, several PROPs, types and missing identifiers is combinatorial.',
  [L+'form.c', L+'prop.c', L+'list.c'],
  [('IFF_getChunkFromForm, searchProperty, searchList', L+'form.c'), ('IFF_getPropFromList', L+'list.c')], [('parent', 'link from a chunk to its group', L+'chunk.h')],
  ['IFF_getChunkFromForm', 'IFF_getChunksFromForm', 'IFF_getChunkFromProp', 'IFF_getPropFromList'])

p('C11', 'Adding chunks keeps contents, links and sizes of a group right',
  'Newly created groups are empty with the size of their type field, and newly created data chunks have the requested identifier, size and payload. Adding a chunk to a FORM, CAT, LIST or PROP (or a PROP to a LIST) appends it after what was added before, links it to that group and increases the size of the group by exactly the space the chunk takes, its header and padding byte included; nothing else in the hierarchy changes, and where the chunk was before makes no difference, so that a hierarchy built bottom-up always has correct sizes.',
  ['programs', 'histories'], 'every sequence of creations and additions, with any chunk sizes and any number of chunks',
  'The tests build a handful of fixed hierarchies.',
  [L+'group.c', L+'form.c', L+'cat.c', L+'list.c', L+'prop.c', L+'rawchunk.c', L+'chunk.c'],
  [('IFF_addToGroup, IFF_attachToGroup', L+'group.c'), ('addPropToList', L+'list.c'), ('IFF_incrementChunkSize', L+'group.c')],
  [('chunkSize', 'declared size of a chunk', L+'chunk.h'), ('chunkLength, propLength', 'number of sub chunks and PROPs', L+'group.h, '+L+'list.h')],
  ['IFF_addToForm', 'IFF_addToCAT', 'IFF_addToList', 'IFF_addPropToList', 'IFF_addToProp', 'IFF_setRawChunkData', 'IFF_setTextData'])

p('C12', 'Recalculating sizes repairs the chunk and all its ancestors',
  'Recalculating the sizes at a chunk sets the size of that chunk, if it is a group, and of every group that encloses it, up to the root, to the size of their actual contents (type field, headers, PROP chunks of a LIST and padding bytes included), leaving every other chunk and all contents unchanged. After any sequence of size changes, recalculating at each changed chunk makes all sizes in the hierarchy consistent again.',
  ['programs', 'histories'], 'every hierarchy and every history of payload and size changes followed by recalculations, at any depth',
  'One fixed hierarchy of depth two.',
  [L+'group.c', L+'form.c', L+'cat.c', L+'list.c', L+'prop.c'],
  [('IFF_updateChunkSizes', L+'group.c'), ('IFF_updateListChunkSizes', L+'list.c')], [('parent', 'link followed upwards', L+'chunk.h')], ['IFF_updateChunkSizes'])

p('C13', 'Contents type tracking while concatenating',
  'When chunks are added to an empty CAT or LIST with tracking of the contents type, its contents type is the type of the first added FORM, CAT or LIST and becomes JJJJ as soon as one with another type is added, after which it stays JJJJ. Adding without tracking never changes it; consequently the type equals the common type of all members, or is JJJJ if they differ.',
  ['histories', 'programs'], 'every sequence of additions to a CAT or LIST',
  'Only two-member sequences through the join tool.',
  [L+'cat.c', L+'list.c'], [('updateContentsType', L+'cat.c')], [('contentsType', 'type of the members of a CAT or LIST', L+'cat.h, '+L+'list.h')],
  ['IFF_addToCATAndUpdateContentsType', 'IFF_addToListAndUpdateContentsType'])

p('C14', 'Every chunk is handled by the handler registered for its scope',
  'The handler of a chunk is the one registered for its identifier for the type of the group that directly holds it (searched along that registration and its parents), otherwise the globally registered one (likewise with parents), otherwise the default one; outside a group, and for types without registration, only the global ones and the default count. Reading, writing, checking, printing, comparing and freeing all use this same handler for every chunk, including the PROPs of a LIST, each chunk being handled once per operation.',
  ['configurations', 'inputs'], 'every registry (any number of form types, chains of any length, any identifiers, no registry at all) and every hierarchy',
  'One registry with two types for one form type, in a flat FORM.',
  [L+'chunkregistry.c', L+'chunk.c', L+'group.c', L+'list.c', L+'iff.c', L+'defaultregistry.c'],
  [('IFF_findChunkType', L+'chunkregistry.c'), ('the group type is passed on as scope', L+'group.c, '+L+'list.c'), ('selectChunkRegistry', L+'iff.c')], [],
  ['IFF_findChunkType', 'the registered callbacks'])

p('C15', 'Application-defined chunks stay within their declared size',
  'While an application-defined chunk is read field by field, a field is read only if it lies entirely within the declared chunk size; fields beyond it keep their defaults, surplus bytes of a longer chunk are skipped, and the next chunk is read from its proper place. While it is written, fields beyond the declared size are left out and a chunk declared longer than its fields is filled up with zero bytes, so that the body always has exactly the declared size.',
  ['inputs', 'configurations'], 'every declared size from zero to far beyond the fields, every layout of fields, at every position in a hierarchy',
  'Four fixed declared sizes of one layout.',
  [L+'field.c', L+'io.c', L+'chunk.c'], [('fieldDoesNotFitInChunk', L+'field.c'), ('IFF_skipUnknownBytes, IFF_writeZeroFillerBytes', L+'io.c')],
  [('bytesProcessed', 'bytes of the body consumed or produced so far', L+'field.c')], ['IFF_read*Field', 'IFF_write*Field', 'IFF_read', 'IFF_write'])

p('C16', 'Numeric fields are stored big-endian and keep their value',
  'Every unsigned byte, signed or unsigned 16-bit and 32-bit number and identifier is written in big-endian byte order at its position and is read back with the same value, sign included. A number of which a byte is missing, or of which a byte cannot be stored, is not taken for read or written, and nothing beyond its own bytes is consumed or produced. This holds for every value of each type.',
  ['inputs'], 'every value of the six primitive types',
  'A few small positive values are tested, by round trip only.',
  [L+'io.c', L+'id.c', L+'field.c'], [('byte swapping in the primitive reads and writes', L+'io.c')], [], ['IFF_readUByte .. IFF_writeLong', 'IFF_readId', 'IFF_writeId'])

p('C17', 'Every allocation has one owner and is released exactly once',
  'Freeing a hierarchy releases everything that reading or building it allocated, exactly once, and nothing outside it; searching and the multi-chunk lookup allocate only the array they hand to the caller; checking, comparing, printing, writing and single-chunk lookups leave nothing allocated, whether they succeed or fail. After any history of operations in which the caller frees the roots and arrays handed to it, no memory remains allocated. A file opened by name is closed again, and no other, before reading or writing returns, whether it succeeds or fails. When no memory can be allocated for a chunk, its payload or its filler bytes, reading, creating or writing fails like on any other error, with nothing left allocated.',
  ['histories', 'inputs', 'fault_sequences'], 'every history of operations, on success and failure paths',
  'The tests do not observe allocations.',
  [L+'chunk.c', L+'group.c', L+'list.c', L+'rawchunk.c', L+'form.c', L+'iff.c'],
  [('IFF_freeChunk, IFF_freeGroup, IFF_freeList', L+'chunk.c, '+L+'group.c, '+L+'list.c'), ('error path of readChunkBody', L+'chunk.c'), ('merging of search results', L+'form.c, '+L+'group.c')],
  [('live blocks', 'heap blocks allocated by the library and not yet released', 'allocator')], ['malloc/free ledger around every call'])

p('C18', 'Diagnostics: silent on success, present on failure, only through the callback',
  'Reading, writing or checking that fails reports at least one diagnostic, and on conforming data with zero padding and no trailing bytes they succeed without any; a non-zero padding byte, trailing bytes and an overrun group are reported although reading succeeds. Diagnostics go only to the installed callback (by default to standard error, never to standard output), and the same operation on the same data always reports the same text.',
  ['inputs', 'configurations', 'histories'], 'every input and every outcome of the operations',
  'The tests do not look at diagnostics.',
  [L+'error.c', L+'io.c', L+'group.c', L+'list.c', L+'iff.c', L+'id.c', L+'form.c', L+'cat.c', L+'prop.c'],
  [('IFF_error and the callback variable', L+'error.c'), ('an error call on each failing path', L+'*.c')], [], ['IFF_errorCallback', 'standard error', 'standard output'])

p('C19', 'The textual representation is complete and exact',
  'Printing a hierarchy produces on standard output exactly its textual representation: for every chunk in document order its identifier and decimal size, for a group its type or contents type, for a LIST its PROP chunks and then its other sub chunks, for a TEXT chunk its characters, and for any other data chunk every payload byte as two lowercase hexadecimal digits, ten per line, each level indented by two more spaces relative to the given indentation.',
  ['inputs', 'programs'], 'every hierarchy, payload and indentation level',
  'One TEXT file and two extension files are printed, compared by a search for a few words.',
  [L+'chunk.c', L+'group.c', L+'list.c', L+'rawchunk.c', L+'util.c', L+'id.c'],
  [('IFF_printChunk', L+'chunk.c'), ('IFF_printGroup, printListPropChunks', L+'group.c, '+L+'list.c'), ('IFF_printRaw, IFF_printText', L+'rawchunk.c')], [], ['IFF_print'])

p('C20', 'iffjoin concatenates all inputs or fails without output',
  'Given one or more readable, conforming IFF files, iffjoin exits 0 and writes to standard output, or to the file given with -o, exactly one CAT that contains the main chunks of all inputs, unchanged and in command-line order, and whose contents type is their common type or else JJJJ. If there is no input, or any input is missing, unreadable or non-conforming, or the result cannot be stored completely, it exits 1; in the former cases nothing is written and an existing output file is left as it was.',
  ['inputs', 'configurations', 'fault_sequences'], 'every list of input files, valid or not, at every position, and every kind of destination',
  'Two tests join two valid files.',
  ['src/iffjoin/join.c', 'src/iffjoin/main.c', L+'cat.c', L+'iff.c'],
  [('IFF_join reads and checks every input before it writes', 'src/iffjoin/join.c'), ('option parsing', 'src/iffjoin/main.c')], [], ['iffjoin exit status, standard output and output file'])

p('C21', 'iffpp prints exactly the valid files',
  'For a conforming IFF file, given by name or on standard input, iffpp exits 0 and prints exactly its textual representation; for a file that cannot be read, or does not conform, it exits 1 and prints nothing on standard output. With the check disabled it prints every file that can be read, conforming or not.',
  ['inputs', 'configurations'], 'every input file, by name or on standard input, with and without the check',
  'About twenty fixed files, looking at the exit status only.',
  ['src/iffpp/pp.c', 'src/iffpp/main.c'], [('IFF_prettyPrint', 'src/iffpp/pp.c')], [], ['iffpp exit status and standard output'])

p('C22', 'Reading a chunk consumes exactly the bytes of that chunk',
  'Reading one chunk from a stream, at any offset, leaves the stream positioned directly behind that chunk and its padding byte, so that consecutive chunks can be read one after the other and a sibling is never affected by how much of its predecessor was understood. Writing chunks one after the other to a stream likewise places each directly behind the previous one.',
  ['inputs', 'histories'], 'every sequence of chunks in one stream, of every type and size, with registered and unregistered types',
  'The tests only read a single main chunk from the beginning of a file.',
  [L+'chunk.c', L+'io.c', L+'group.c'], [('IFF_skipUnknownBytes, IFF_readPaddingByte', L+'io.c'), ('IFF_readChunk', L+'chunk.c')], [], ['IFF_readChunk', 'IFF_writeChunk', 'stream position'])

p('C23', 'Inspecting a hierarchy never changes it',
  'Checking, comparing, searching, looking up, printing and writing leave every chunk of the hierarchies involved exactly as it was (identifiers, sizes, types, links, order and payload), whether they succeed or fail, so that they may be repeated in any order with the same results.',
  ['histories'], 'every history of inspecting operations on every hierarchy',
  'The tests perform one operation per program and do not look at the hierarchy afterwards.',
  [L+'chunk.c', L+'group.c', L+'list.c', L+'form.c', L+'rawchunk.c'], [('inspecting operations only read the structures', L+'*.c')], [], ['the structures before and after each call'])

p('C24', 'Results do not depend on the kind of source or destination',
  'The same bytes give the same hierarchy and outcome whether they are read by file name, from an open stream, from a pipe or standard input, and however the stream delivers them (short reads included), whatever the file is called. The same hierarchy gives the same bytes and outcome whether it is written by file name, to an open stream, to a pipe or to standard output, and an existing file is replaced completely.',
  ['configurations', 'inputs', 'schedules'], 'every input and hierarchy, every kind of source and destination, every split into short reads',
  'The tests use named files only, and standard output once.',
  [L+'iff.c', L+'io.c'], [('IFF_read, IFF_readFile, IFF_readFd', L+'iff.c'), ('IFF_write, IFF_writeFile, IFF_writeFd', L+'iff.c')], [], ['IFF_read', 'IFF_write'])

p('C25', 'The command lines of iffjoin and iffpp mean what their help says',
  'Options of iffjoin and iffpp may be given in short or long form, combined in one word, and before, between or behind the file names, with the same effect; the last output file given counts, and every word behind "--" is a file name. A request for help or for the version prints it and exits 0, and a command line with an unknown option or without the file name that -o needs exits 1; neither touches any file. No run creates or changes any file other than the named output file.',
  ['inputs', 'configurations'], 'every sequence of words on the command line and every set of existing files',
  'The tests use two command lines per tool.',
  ['src/iffjoin/main.c', 'src/iffpp/main.c'], [('getopt_long loop', 'src/iffjoin/main.c'), ('getopt_long loop', 'src/iffpp/main.c')], [], ['exit status, standard output and the files in the directory'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
