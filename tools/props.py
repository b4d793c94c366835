"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os

P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': qtext},
         'why_tests_cant': why,
         'anchors': {'files': files,
                     'mechanism': [{'name': n, 'where': w} for n, w in mech],
                     'observe_at': observe or [w for n, w in mech][:2],
                     'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append(d)

p('P01', 'LZ10 compression is lossless and emits a valid stream',
  'For every byte string shorter than 16 MiB, LZ10-compressing it and decompressing the result gives back exactly the same bytes. '
  'The compressed output is a valid LZ10 stream: type byte 0x10, the exact uncompressed size, back-references 3 to 18 bytes long reaching 1 to 4096 bytes back and never before the start of the output, and no missing or leftover data beyond zero-filled alignment. '
  'A third-party LZ10 decoder therefore reconstructs the same bytes.',
  ['inputs'], 'every byte string; in particular every repetition structure around the minimum/maximum match length, the window size and the 8-token flag groups',
  'Losing a byte needs a particular combination of match length, match distance, position relative to flag-byte groups and end of data; a handful of example inputs meets almost none of the combinations.',
  ['ndspy/lz10.py', 'ndspy/_lzCommon.py'],
  [('shared LZ match search and token emission', 'ndspy/_lzCommon.py:compress'), ('LZ10 framing', 'ndspy/lz10.py:compress')],
  ['ndspy.lz10.compress / decompress return values'])

p('P02', 'LZ10 decompression accepts every valid stream from any compressor',
  'Decompressing any well-formed LZ10 stream, including ones no compressor of this library would produce (overlapping copies, short matches where longer ones exist, farthest distances, output that ends inside a match or a flag group, trailing alignment bytes), yields exactly the bytes the format defines. '
  'Data whose first byte is not the LZ10 type byte is rejected with TypeError rather than decoded.',
  ['inputs'], 'every well-formed token stream (literals and back-references with every legal length and distance)',
  'The decoder is only ever tested with its own compressor; streams from other compressors use token shapes (overlaps, maximum distance) that its own compressor never emits.',
  ['ndspy/lz10.py'], [('LZ10 token decoder', 'ndspy/lz10.py:decompress')])

p('P03', 'Code compression is lossless, in-place decodable and never fails',
  'Compressing any code data succeeds, and decompressing the result gives back the original bytes (followed only by zero bytes when the data could not be made smaller and was stored uncompressed), unless the stored data itself ends with something indistinguishable from a compression footer. '
  'A result that is compressed is a valid backwards-LZ file that the console can decompress in place: decoding from the end never overwrites compressed bytes that have not been read yet, and the size fields match the data. '
  'When the data is marked as an ARM9 main code file, its first 0x4000 bytes stay verbatim at the start of the result.',
  ['inputs', 'configurations'], 'every byte string, with and without the ARM9 flag, in particular data that is barely compressible',
  'The failures sit at the boundary between compressible and incompressible data, and in the part of the stream left uncompressed for in-place decoding; only enumerating data shapes around that boundary reaches them.',
  ['ndspy/codeCompression.py', 'ndspy/_lzCommon.py'],
  [('backwards LZ framing, footer and raw prefix', 'ndspy/codeCompression.py:compress'), ('match search', 'ndspy/_lzCommon.py:compress')])

p('P04', 'Code decompression decodes every valid file and leaves other data alone',
  'Decompressing any valid backwards-LZ code file (any raw prefix, any token sequence, any footer padding, optionally followed by a small appended word-aligned trailer) gives exactly the raw prefix, the decoded bytes, and the trailer. '
  'Data that carries no plausible compression footer, including empty and very short data, is returned unmodified and never raises.',
  ['inputs'], 'every well-formed compressed file and every uncompressed file',
  'Footer detection is heuristic: which byte patterns count as a footer, and where, can only be judged over all small files.',
  ['ndspy/codeCompression.py'],
  [('footer / appended data detection', 'ndspy/codeCompression.py:_detectAppendedData'), ('backwards decoder', 'ndspy/codeCompression.py:decompress')])

p('P05', 'Filename tables survive saving and loading',
  'Every folder tree (any nesting, empty folders, any per-folder first file ID, any Latin-1 names of 1 to 127 characters) saved as a filename table and loaded again gives the same folders, files, order and first IDs. '
  'Loading a filename table in the standard layout and saving it again reproduces it byte for byte, and the saved table agrees with an independent reader of the format on folder IDs, parents, offsets and names. '
  'Tables that other tools laid out differently (folders numbered or stored in another order) load to the same tree, and names too long for the format are rejected with ValueError.',
  ['inputs'], 'every folder tree shape and name assignment',
  'No test touches filename tables; folder numbering, parents and offsets interact across arbitrarily nested trees.',
  ['ndspy/fnt.py'], [('table reader', 'ndspy/fnt.py:load'), ('table writer', 'ndspy/fnt.py:save')])

p('P06', 'File IDs and paths agree in both directions',
  'In any filename table whose folders hold no two equal file names or equal folder names, looking up a path (leading and trailing slashes are ignored, while one with two slashes between names names nothing) gives the ID of exactly the file at that path (or nothing if there is none), looking up an ID gives the full path of a file with that ID (or nothing), and the two are inverse to each other. '
  'Folder lookup and index/membership syntax give the same answers as those lookups, relative to any folder, and report missing keys with KeyError and wrong key types with TypeError.',
  ['inputs'], 'every folder tree and every query path or ID, present or absent',
  'A wrong answer needs a specific tree shape (same name at different depths, file and folder with the same name, ID gaps, sibling folders after nested ones).',
  ['ndspy/fnt.py'], [('path to ID', 'ndspy/fnt.py:Folder.idOf'), ('ID to path', 'ndspy/fnt.py:Folder.filenameOf'), ('folder lookup', 'ndspy/fnt.py:Folder.subfolder')])

p('P07', 'NARC archives preserve all files and names through save and load',
  'Every NARC (any list of files of any sizes including empty ones, any filename tree, either header endianness) saved and loaded again has the same files, names and endianness, and saving that again yields identical bytes; archives written by other tools (other file order, padding or name table layout) load with the files and names they define. '
  'The saved archive is readable by an independent reader of the format: correct sizes, in-bounds non-overlapping word-aligned file ranges. '
  'Data with a wrong magic number or an unsupported version is refused with ValueError.',
  ['inputs'], 'every list of file sizes/contents, name tree and endianness',
  'Offsets depend on the sizes of all preceding files and on the name table length; no test covers NARC at all.',
  ['ndspy/narc.py', 'ndspy/fnt.py'], [('archive reader', 'ndspy/narc.py:NARC.__init__'), ('archive writer', 'ndspy/narc.py:NARC.save')])

p('P08', 'Editing an archive or ROM by filename changes exactly that file',
  'After any sequence of by-name and by-index replacements, appends and save/reload steps on a NARC or a ROM, every file holds the data last written to it and every other file, name and ROM attribute is unchanged. '
  'Accessing a filename that does not exist raises ValueError and changes nothing; so does, with ValueError or IndexError, accessing a name whose ID is beyond the last file.',
  ['histories'], 'every sequence of edits and save/reload steps',
  'An edit that grows or shrinks one file moves all later ones; only enumerating edit histories shows that nothing else changes.',
  ['ndspy/narc.py', 'ndspy/rom.py', 'ndspy/fnt.py'],
  [('NARC by-name access', 'ndspy/narc.py:NARC.setFileByName'), ('ROM by-name access', 'ndspy/rom.py:NintendoDSRom.setFileByName')])

p('P09', 'ROM contents and header fields survive saving and loading',
  'Every ROM built from any combination of ARM9/ARM7 code, ARM9 post-data, overlay tables, files, filenames, icon banner of any version, debug ROM and signature (not all zero), with any header field values, loads back after saving with all of those equal. '
  'Each documented header field is stored at its documented header offset.',
  ['inputs', 'configurations'], 'every combination of optional parts, sizes and header values',
  'The ROM has more than a dozen optional parts whose positions depend on each other; no test loads or saves a ROM.',
  ['ndspy/rom.py', 'ndspy/_common.py'], [('ROM reader', 'ndspy/rom.py:NintendoDSRom.__init__'), ('ROM writer', 'ndspy/rom.py:NintendoDSRom.save')])

p('P10', 'Saved ROM images are structurally valid',
  'In every saved ROM image, the regions named by the header and the file allocation table (code, overlay tables, filename table, allocation table, banner, debug ROM, each file) lie inside the image, do not overlap one another, are suitably aligned, and contain exactly the intended data. '
  'The logo and header checksums are correct CRC-16 values of the saved bytes, the header records the used size, and the optional device-capacity update selects the smallest valid cartridge capacity that holds the image.',
  ['inputs', 'configurations'], 'every combination of parts, sizes, file orders and overlay assignments',
  'Overlaps and wrong checksums only appear for particular sizes relative to the alignment units, and tests never build a ROM.',
  ['ndspy/rom.py', 'ndspy/_common.py'], [('layout and patch-up of header', 'ndspy/rom.py:NintendoDSRom.save'), ('CRC-16', 'ndspy/_common.py:crc16')])

p('P11', 'Resaving an unmodified ROM reproduces it byte for byte',
  'Loading a ROM image in the canonical layout and saving it without changes yields an identical image, and continues to do so over any number of load/save rounds. '
  'The storage order of files is preserved, including files stored out of ID order, overlay files stored next to their overlay tables, and empty files.',
  ['inputs', 'histories'], 'every canonical ROM image (any file order, any empty files, any overlay assignment)',
  'Byte stability depends on inferred file order and paddings; a single example cannot exercise permutations and empty files.',
  ['ndspy/rom.py'], [('storage order inference', 'ndspy/rom.py:NintendoDSRom._loadFromData'), ('layout', 'ndspy/rom.py:NintendoDSRom.save')])

p('P12', 'Main code files keep their sections through save and load',
  'Loading any main code file, with or without a code settings block, with its settings located by pointer or by search, compressed or not, directly or through a ROM, yields the sections its settings table describes. '
  'Saving and reloading preserves every section\'s data (zero-padded to whole words), load address and BSS size, with non-empty sections first and otherwise in order; saving an unmodified uncompressed file whose section table comes last reproduces it exactly, and a code file without a settings block, such as one made from a single implicit section, saves to that section\'s data. '
  'Compressed saves reload to the same sections and record the end address of the compressed data in the settings block.',
  ['inputs'], 'every number, size and order of sections, settings position and compression choice',
  'Section offsets are implied by the sizes of other sections and the table position; tests never load code files.',
  ['ndspy/code.py', 'ndspy/codeCompression.py'], [('settings search and section split', 'ndspy/code.py:MainCodeFile.__init__'), ('section table rebuild', 'ndspy/code.py:MainCodeFile.save')])

p('P13', 'Overlays and overlay tables survive saving and loading',
  'Every overlay table with any set of overlay IDs and field values loads back equal after saving, entries appear in ID order in the console\'s 32-byte format, and loading only selected IDs gives exactly those overlays and fetches only their data. '
  'Saving an overlay, compressed or not, returns data that reloads to the same contents and leaves its size fields and compression flag consistent with that data without touching its other flags.',
  ['inputs', 'histories'], 'every set of overlay IDs, field values, and save(compressed or not) histories',
  'Field packing mixes a 24-bit size with an 8-bit flag byte; wrong packing only shows for particular values and save orders.',
  ['ndspy/code.py', 'ndspy/rom.py'], [('overlay save', 'ndspy/code.py:Overlay.save'), ('table codec', 'ndspy/code.py:loadOverlayTable / saveOverlayTable')])

p('P14', 'BMG messages survive saving and loading in every encoding',
  'Every list of messages made of text and escape sequences, null or not, with any fixed-length metadata, in every supported encoding (its name in any capitalisation) and either endianness, with any ID and header values, loads back equal after saving (up to merging adjacent text). '
  'The saved file is well formed for an independent reader: section sizes and counts, string offsets, terminators and 32-byte alignment are right, null messages have offset zero, and saving the loaded file again yields identical bytes. '
  'Text containing the terminator or escape character and messages with unequal metadata lengths are refused with ValueError.',
  ['inputs', 'configurations'], 'every message list over a small alphabet of text/escape parts, encodings, endiannesses and metadata lengths',
  'The tests use a few fixed files; combinations of encoding width, endianness, escapes, null messages and padding boundaries are not covered.',
  ['ndspy/bmg.py'], [('reader', 'ndspy/bmg.py:BMG._load'), ('writer', 'ndspy/bmg.py:BMG.save'), ('message codec', 'ndspy/bmg.py:Message.save')])

p('P15', 'BMG script instructions, labels and scripts survive saving and loading',
  'Every combination of script instructions, labels and script entry points stored in a BMG of either endianness loads back with the same values at the same indices, apart from all-zero padding entries at the very end. '
  'The FLW1 section exists in the saved file exactly when there are instructions or labels, and the FLI1 section exactly when there are scripts.',
  ['inputs', 'configurations'], 'every list of instructions, labels and scripts of either endianness, including all-zero and negative entries',
  'Scripts refer to instructions and labels by index, so one dropped entry silently redirects the game; the tests only use one script file in one endianness.',
  ['ndspy/bmg.py'], [('FLW1/FLI1 reader', 'ndspy/bmg.py:BMG._load'), ('FLW1/FLI1 writer', 'ndspy/bmg.py:BMG.save')])

p('P16', 'Sound archives keep every entry, name and attribute',
  'A sound archive holding any combination of sequences, sequence archives, banks, wave archives, players, groups and streams, each entry possibly missing and each name (Latin-1, also those of the sequences inside sequence archives) possibly missing, loads back after saving with the same lists in the same order and all per-entry attributes equal. '
  'The saved archive is readable by an independent reader of the format: block offsets and sizes, symbol strings, info records and file table all agree.',
  ['inputs', 'configurations'], 'every combination of present/missing/unnamed entries of all eight kinds and their attribute values',
  'Symbol and info tables are parallel arrays with holes; misalignment only shows for particular patterns of missing names and entries. No test covers sound archives.',
  ['ndspy/soundArchive.py', 'ndspy/soundGroup.py', 'ndspy/soundSequencePlayer.py', 'ndspy/soundStreamPlayer.py'],
  [('archive reader', 'ndspy/soundArchive.py:SDAT.__init__'), ('archive writer', 'ndspy/soundArchive.py:SDAT.save')])

p('P17', 'Sound archive file sharing follows data and merge IDs exactly',
  'When saving a sound archive, two entries share one stored file exactly when they are of the same kind, save to identical data and have equal merge IDs; otherwise each gets its own stored file. '
  'Whatever is shared, every entry loads back with its own data and its own attributes, and loading then resaving preserves which entries share a file.',
  ['inputs', 'configurations'], 'every pattern of equal/different data and equal/different merge IDs over all file kinds',
  'The sharing relation is over pairs of entries across lists; tests never save an archive.',
  ['ndspy/soundArchive.py'], [('file table construction and merging', 'ndspy/soundArchive.py:SDAT.save')])

p('P18', 'Resaving an unmodified sound archive reproduces it byte for byte',
  'For every sound archive saved with any choice of file alignment and first-file alignment (powers of two up to 0x200), FAT-length, end-padding and symbol-size options, the stored files obey that alignment and padding choice. '
  'Loading such an archive and saving it unmodified reproduces it byte for byte.',
  ['inputs', 'configurations'], 'every combination of layout options and stored file sizes, with and without symbols',
  'Layout options are re-inferred from the bytes by heuristics; whether inference is right depends on the sizes of all files.',
  ['ndspy/soundArchive.py'], [('layout inference', 'ndspy/soundArchive.py:SDAT.__init__'), ('layout', 'ndspy/soundArchive.py:SDAT.save')])

p('P19', 'Every sequence event encodes and decodes exactly',
  'Every kind of sequence event with any legal parameter values encodes to the bytes the format defines, occupies exactly the length it declares, and decodes back to an equal event of the same kind. '
  'This includes variable-length numbers (of up to five bytes), signed and multi-byte parameters, and events nested inside random/from-variable prefix events.',
  ['inputs'], 'every event type and every boundary and representative parameter value',
  'There are about 60 event types with different parameter layouts and none is tested.',
  ['ndspy/soundSequence.py'], [('event classes', 'ndspy/soundSequence.py:SequenceEvent subclasses'), ('event dispatch', 'ndspy/soundSequence.py:readSequenceEvents')])

p('P20', 'Parsing and saving sequence data is lossless and follows control flow',
  'If sequence data parses, saving the parsed events reproduces the data byte for byte. '
  'Every event that can be reached from a starting point by falling through, jumping, calling, returning, starting tracks or skipping the event after an If is parsed as an event at its own position, every jump/call/track target refers to the event at the encoded offset, and only data that cannot be reached is kept as raw data. '
  'Data whose reachable events are all known, complete, encoded without superfluous bytes and not overlapping each other, and that never returns without having been called, parses. '
  'If parsing fails, the sequence stays unparsed with its data intact.',
  ['programs'], 'every small sequence program (all event layouts, jump graphs, shared subroutines, dead code, multiple entry points)',
  'The parser interprets control flow; the failures need specific jump/call graphs such as shared subroutines and backward jumps.',
  ['ndspy/soundSequence.py'], [('control-flow driven parser', 'ndspy/soundSequence.py:readSequenceEvents'), ('offset assignment', 'ndspy/soundSequence.py:saveSequenceEvents')])

p('P21', 'Editing a parsed sequence keeps every jump target attached to its event',
  'After any series of insertions, removals, replacements, reorderings and parameter changes of events in a parsed sequence, saving produces data in which each jump, call, track start and named entry point leads to the same event object it refers to, wherever that event now is. '
  'A reference to an event that is not in the list is reported as an error rather than saved as a wrong offset.',
  ['histories', 'programs'], 'every small program and every series of edits up to the bound',
  'Offsets of all events shift with every edit; tests never edit sequences.',
  ['ndspy/soundSequence.py', 'ndspy/soundSequenceArchive.py'], [('offset assignment', 'ndspy/soundSequence.py:saveSequenceEvents')])

p('P22', 'Sequence files and sequence archives survive saving and loading',
  'Every sequence file and every sequence archive (any number of sequences, missing entries, shared or overlapping starting points, any per-sequence attributes and names), parsed or unparsed, loads back with equal events data, entry points, names and attributes after saving. '
  'Parsing can be requested at any point and any number of times without changing what is saved.',
  ['inputs', 'histories'], 'every combination of entry points, missing entries, attributes and parse/save/reload histories',
  'Entry points may be absent or shared and archives may be parsed or not when saved; tests never touch them.',
  ['ndspy/soundSequence.py', 'ndspy/soundSequenceArchive.py'], [('sequence file codec', 'ndspy/soundSequence.py:SSEQ'), ('sequence archive codec', 'ndspy/soundSequenceArchive.py:SSAR')])

p('P23', 'Instrument banks keep every instrument through save and load',
  'Every instrument bank (any mix of missing, single-note, range and regional instruments with any note definitions, and any wave archive list) loads back after saving with the same instruments at the same IDs with equal fields. '
  'The saved bank is readable by an independent reader of the format, and saving the loaded bank again yields identical bytes.',
  ['inputs'], 'every list of instruments up to the bound, each of every type, size and boundary field values',
  'Instrument records vary in size and padding by type and order; no test covers banks.',
  ['ndspy/soundBank.py'], [('bank reader', 'ndspy/soundBank.py:SBNK.__init__'), ('bank writer', 'ndspy/soundBank.py:SBNK.save')])

p('P24', 'Bank storage order, sharing and unreachable instruments are preserved',
  'Instruments of a bank share storage exactly when their data and their merge IDs are equal, and are stored by type and then by their order key. '
  'Instruments stored in a bank but not reachable by ID are recovered when their type follows from their neighbours or their data is typical, and loading and saving a bank containing such instruments, shared instruments or out-of-order instruments in a supported arrangement reproduces it byte for byte.',
  ['inputs', 'configurations'], 'every arrangement of instruments, order keys, merge IDs and unreachable instruments up to the bound',
  'Recovery of unreachable instruments is heuristic and depends on gaps between all stored instruments.',
  ['ndspy/soundBank.py'], [('unreachable instrument recovery', 'ndspy/soundBank.py:SBNK.__init__'), ('storage order and merging', 'ndspy/soundBank.py:SBNK.save')])

p('P25', 'Waves and wave archives survive saving and loading',
  'Every wave (any format, loop point, sample rate, time, length and data) and every wave archive of any number of waves loads back equal after saving, and saving again yields identical bytes. '
  'The stored offsets, sizes and loop fields agree with an independent reader of the format.',
  ['inputs'], 'every wave format, loop setting, data length, and archives of any number of waves',
  'Data lengths and loop points are stored in words with format-dependent conversions; nothing tests them.',
  ['ndspy/soundWave.py', 'ndspy/soundWaveArchive.py'], [('wave codec', 'ndspy/soundWave.py:SWAV'), ('wave archive codec', 'ndspy/soundWaveArchive.py:SWAR')])

p('P26', 'Streams survive saving and loading with all channels intact',
  'Every stream (any wave format, number of channels and blocks, last-block length, loop settings and attributes) loads back after saving with every channel\'s blocks and all attributes equal, and saving again yields identical bytes. '
  'The block size and count fields in the file agree with the stored data for an independent reader of the format.',
  ['inputs'], 'every number of channels and blocks, block and last-block sizes and format',
  'Interleaving and padding depend on channel count, block count and last-block size together; nothing tests it.',
  ['ndspy/soundStream.py'], [('stream codec', 'ndspy/soundStream.py:STRM')])

p('P27', 'Colour conversions are exact, consistent and reversible',
  'For every possible 16-bit colour, all representations (integer, two bytes, 5-bit channels, 8-bit channels) convert to one another consistently, whichever path of conversions is taken and whether or not lookup tables are prepared, and converting back gives the original colour. '
  'Loading a palette of any length and saving it gives back the original bytes.',
  ['inputs'], 'all 65536 colours times every pair of representations, and all 8-bit channel values',
  'Exactness has to hold for all colours and all pairs of representations; no test touches colours.',
  ['ndspy/color.py'], [('conversion functions and tables', 'ndspy/color.py')])

p('P28', 'Tiles and tilemaps encode and decode without loss',
  'Every image tile (4 or 8 bits per pixel) and every tilemap entry (either format, every tile number, flip and palette combination) decodes and re-encodes to the same bytes, with each pixel or field equal to what the hardware format defines. '
  'Lists of tiles or entries of any length keep their order and length, and changing one loaded tile or entry leaves the others alone.',
  ['inputs'], 'all 65536 tilemap entries, every pixel position and value, every list length up to the bound',
  'Bit-packing errors affect individual positions or values; no test touches graphics.',
  ['ndspy/graphics2D.py'], [('tile codec', 'ndspy/graphics2D.py:ImageTile'), ('tilemap codec', 'ndspy/graphics2D.py:TilemapTile')])

p('P29', 'Rendering tiles and tilemaps places every pixel correctly',
  'Rendering any list of tiles, or any tilemap, with any palette and width puts exactly the colour defined by tile, palette and flips at every pixel of an image of the right size, with index 0 always transparent, every other colour opaque whatever its alpha bit, and missing tiles of an incomplete last row left blank; a tile number below the given offset is refused with ValueError. '
  'Reading and writing tiles at positions of a tile list addresses the same tile that is rendered there, for lists of any width and height.',
  ['inputs', 'configurations'], 'every small tile list, width, flip combination and palette',
  'Wrong pixels depend on flips, partial last rows and tall or wide layouts; no test renders anything.',
  ['ndspy/graphics2D.py', 'ndspy/_common.py'], [('tile list rendering', 'ndspy/graphics2D.py:renderImageTiles'), ('tilemap rendering', 'ndspy/graphics2D.py:renderTilemapTiles')])

p('P30', 'Texture files keep all textures and palettes through save and load',
  'Every texture file (up to 255 named textures in any of the formats and sizes, with the amount of data these call for and less than 512 KiB per data area, and up to 255 named palettes of any multiple of 4 colours, none included) loads back after saving with the same names, order, parameters and data, and saving again yields identical bytes. '
  'The name tables, offsets and sizes in the file agree with an independent reader of the format, files laid out differently (other area order, shared or unsorted data) load with the same contents, and names of more than 16 characters are refused with ValueError.',
  ['inputs'], 'every combination of texture formats, sizes, parameter bits, palettes and names up to the bound',
  'Texture data is split over several areas by format, with a bit-packed parameter word and a search tree over names; no test covers it.',
  ['ndspy/texture.py', 'ndspy/_common.py'], [('texture file codec', 'ndspy/texture.py:NSBTX'), ('name tables', 'ndspy/_common.py:loadInfoBlock / saveInfoBlock')])

p('P31', 'Rendering a texture gives the colours the hardware format defines',
  'Rendering any texture in any format with any palette, given as a Palette or as a list of colour tuples or of 16-bit values, yields an image of the texture\'s size in which each pixel has the colour and opacity the hardware format defines for its data. '
  'This includes translucent formats, colour-0 transparency and every interpolation mode of block-compressed textures; only the colour of fully transparent pixels is left open.',
  ['inputs'], 'every texel value and palette index of every format, and every block-compression mode',
  'Each format decodes bits differently and modes differ per 4x4 block; no test renders a texture.',
  ['ndspy/texture.py', 'ndspy/color.py'], [('format renderers', 'ndspy/texture.py')])

p('P32', 'Model files keep model data and textures through save and load',
  'Loading a model file and saving it, with or without embedded textures, preserves its model data unchanged and its textures and palettes equal, and saving again yields identical bytes. '
  'Exporting the textures and importing them back, into the same or another model file, leaves the model data untouched and transfers exactly the textures.',
  ['inputs', 'histories'], 'every small model file and every history of export/import/save steps',
  'No test covers model files.',
  ['ndspy/model.py', 'ndspy/texture.py'], [('model file codec', 'ndspy/model.py:NSBMD'), ('texture transfer', 'ndspy/model.py:NSBMD.importNSBTX / exportNSBTX')])

p('P33', 'Button and cell layout files survive saving and loading',
  'Every touch-button layout file and cell layout file with up to 65535 entries and any positions (0 to 4095), alignments and field values loads back equal after saving, and loading then saving reproduces the bytes. '
  'The top-left corner reported for an aligned rectangle follows from its anchor position, size and alignment: centred rectangles start half the size, rounded up, before the anchor, and right- or bottom-aligned ones start the whole size before it.',
  ['inputs'], 'every position value, alignment combination and entry list up to the bound',
  'Positions share a field with alignment bits; no test touches these formats.',
  ['ndspy/bnbl.py', 'ndspy/bncl.py', 'ndspy/_common.py'], [('button layout codec', 'ndspy/bnbl.py'), ('cell layout codec', 'ndspy/bncl.py'), ('alignment packing', 'ndspy/_common.py:packAlignment / unpackAlignment')])

p('P34', 'Music editing keeps every note at its intended time',
  'For every list of sequence events, the reported duration is the time at which playing it straight through ends. Moving in time reports the first event at the latest time reached, which is exactly the requested time or the last event boundary before it, with the time moved and the mono/poly mode there; cutting a rest or appending one (never to a looped track) changes the time of no event. '
  'Looping a track from one time to a later one makes it play the same events at the same times up to the end and then repeat the part from the start on (events after the end are dropped, or kept when asked), and is refused with RuntimeError where a note would have to be cut or the track is looped already. Setting or removing initial values, changing velocities, renumbering tracks and simultaneous list edits change nothing but what they name. '
  'Saving a song (any set of tracks that share no events, with any jumps, calls and conditions inside them, whether edited or not) and loading it again gives the same tracks, each playing the same events at the same times.',
  ['histories', 'programs'], 'every small song and every series of edits up to the bound',
  'Timing is implicit in rests between events, so an off-by-one moves all later notes; nothing tests it.',
  ['ndspy/extras/music.py'], [('time edits', 'ndspy/extras/music.py:moveInTime'), ('song model', 'ndspy/extras/music.py:SSEQMusic')])

p('P35', 'Minifying a sound bank keeps everything that is played',
  'After minifying a bank, with or without its wave archives, for a set of sequences in which every note follows a switch to its instrument, the sequences are unchanged except for instrument IDs, and every note in them still resolves to a note definition with the same parameters and, through the renumbered wave IDs, to the same wave data as before (PSG notes keep their duty cycle). '
  'Instruments that no sequence selects are dropped, and so are waves used only by those or only by pitches never played. The results can be saved, loaded and minified again. This holds for all four entry points and for parsed and unparsed sequences, several archives and shared instrument or note definition objects.',
  ['inputs'], 'every small bank, set of wave archives and set of played notes',
  'Wave and instrument renumbering is only wrong for banks using several archives, shared definitions or partial ranges; nothing tests it.',
  ['ndspy/extras/music.py', 'ndspy/soundBank.py'], [('minification', 'ndspy/extras/music.py:minifyByEvents')])

p('P36', 'File-based functions and command-line tools match the in-memory API',
  'For every format, loading from a filesystem file and saving to one give exactly the same objects and bytes as the in-memory functions, with every documented argument and option passed through, for paths given as text or any path-like object, and whatever the file contained before. A save that fails leaves an existing file as it was. '
  'The command-line compressors write exactly what the library functions return (honouring --is_arm9 anywhere on the line), to the given output name or else to the input name with its last extension replaced by .cmp or .dec, create no other files, leave the input file unchanged unless it is also the output, and write nothing when they fail.',
  ['inputs', 'configurations'], 'every format, every documented option, every command-line form',
  'Each convenience wrapper forwards its own arguments; a forgotten argument is invisible unless every wrapper and option is compared.',
  ['ndspy/lz10.py', 'ndspy/codeCompression.py', 'ndspy/rom.py', 'ndspy/narc.py', 'ndspy/bmg.py', 'ndspy/soundArchive.py', 'ndspy/soundWaveArchive.py', 'ndspy/code.py'],
  [('file wrappers', 'fromFile / saveToFile methods'), ('command lines', 'ndspy/lz10.py:main, ndspy/codeCompression.py:main')])

p('P37', 'Saving is repeatable and objects are independent',
  'Saving any object again gives identical results, and saving changes nothing in the object other than what is documented: sizes and flags of overlays, and the device capacity, time and length values whose update was asked for. '
  'Objects share no mutable state: editing any part of one object, however deeply nested, never affects another object that was newly created, loaded from the same data, or loaded from what the first one was saved as, nor objects created later, data that was loaded, or results of earlier saves; changing a saved result never affects the object. '
  'Code files and overlays loaded from a ROM are likewise separate from it and from each other. The lists and other parts of one new or loaded object are separate as well (sequences, banks and SDATs aside). (Lists handed to constructors may be taken over by the object.)',
  ['histories'], 'every format and every interleaving of create, load, edit and save on two objects up to the bound',
  'Shared default values and save-time side effects only show up in multi-object histories that example tests do not have.',
  ['ndspy/__init__.py', 'ndspy/rom.py', 'ndspy/narc.py', 'ndspy/bmg.py', 'ndspy/soundArchive.py', 'ndspy/soundBank.py', 'ndspy/soundStream.py'],
  [('constructors and save methods', 'all format classes')])

p('P38', 'Printable forms of every object are available and faithful',
  'str() and repr() of any library object succeed and leave it unchanged, including empty objects and looping sequences. '
  'Where such a text shows the bytes of a code section, overlay, archive file, wave, stream block, unparsed sequence or texture as a literal, it evaluates to exactly those bytes, or to a prefix marked by "...". '
  'The repr() of folders, touch areas, image positions, BNBL and BNCL files, players, group entries, note definitions, instruments, messages, sequence events without destinations, and waves, code sections and overlays of up to 32 bytes is an expression for an equal object (enumeration members aside). '
  'The str() of folders and NARCs lists every file and folder in order with ID and name; of SBNK, SWAR, BNBL and BNCL every item in order with index and own text; of parsed sequences every event in order with its index, and branch targets by index; of parsed SSARs also each distinct sequence name at its first event. '
  'Different sequence events of one type without destinations, and different touch areas and image positions, have different str().',
  ['inputs'], 'every byte value and string length in literals, and every kind of object including empty ones',
  'Text forms are only exercised for BMG; escaping errors need specific adjacent byte values.',
  ['ndspy/_common.py', 'ndspy/narc.py', 'ndspy/rom.py', 'ndspy/fnt.py', 'ndspy/soundBank.py', 'ndspy/soundSequence.py'],
  [('byte literal formatting', 'ndspy/_common.py:shortBytesRepr'), ('object listings', '__str__ / __repr__ methods')])

p('P39', 'Named-list helpers find and replace exactly the first match',
  'For every list of name-value pairs and every name, the lookup helper returns the first matching value and index and reports a missing name with KeyError. '
  'Replacing sets the value of exactly the first matching entry, keeps all other entries and their order, and never changes a list when the name is missing.',
  ['inputs'], 'every list up to the bound over a small name alphabet including duplicates and missing names',
  'Tests use a few fixed lists; duplicates and falsy names or values matter.',
  ['ndspy/__init__.py'], [('named list helpers', 'ndspy/__init__.py:findInNamedList / indexInNamedList / setInNamedList')])

p('P40', 'What a format cannot hold or is not is refused, never misread or mangled',
  'Loading a BMG, BNBL, BNCL, NARC, SDAT, SBNK, SSEQ, SSAR, STRM, SWAV, SWAR, NSBMD or NSBTX from data of at least header size whose magic differs in any byte (such as a file of another of these formats), or whose version number is not the supported one, raises ValueError; data whose first byte is not 0x10 is refused by LZ10 decompression with TypeError; wrong magics of the blocks inside (BMG sections, NARC tables and file image, SDAT names, information and file table, the data and header blocks of sound formats except SSEQ, MDL0 and TEX0), unknown BMG text encodings and bank instrument types above 17 raise. '
  'Every whole-byte number field (8, 16 or 32 bits unsigned in the file) accepts and gives back each value of its range, and a negative or too large value makes saving (of the containing SDAT, for attributes stored there) raise instead of writing another value; the same goes for the values of sequence events, for the pairs of BMG labels (signed 8 and 16 bits) and scripts, for ROM header fields of a fixed length (ID and developer codes, logo, pad088, pad16C), and for numbers of items their file cannot count (touch areas, image positions, stream channels, textures, palettes, BMG messages, instructions and scripts), message infos and escape sequences too long for their length field, and banks over 64 KiB. '
  'Saving raises ValueError for: more than 4 wave archives of a bank in an SDAT, more than 8 regions, BMG encodings and byte orders that do not exist, NUL or 0x1A in message text, instructions that are not 8 bytes, message infos of unequal length, texture sides other than powers of two 8..1024, palettes of a colour count not divisible by 4, texeled data1 that is not twice data2, texture and palette names over 16 and file and folder names over 127 characters, tiles or tilemap entries of mixed formats, note pitches or velocities over 127, negative pitches and durations, waves whose loop starts after their end, and stream channels with unequal block counts or sizes; and UnicodeEncodeError for names or text that cannot be encoded. '
  'Tile data of the wrong length, formats that are none, and rendering a tile number below the offset raise ValueError; as do events before parsing, raw data after it, and saving an SSAR with sequences in the other state.',
  ['inputs'], 'every value around each limit of every such field, every other magic byte and version number',
  'Refusals are hardly tested; silently wrapping a value or accepting foreign data corrupts a file without any sign.',
  ['ndspy/narc.py', 'ndspy/rom.py', 'ndspy/bmg.py', 'ndspy/soundArchive.py', 'ndspy/soundBank.py', 'ndspy/soundSequence.py', 'ndspy/soundSequenceArchive.py', 'ndspy/soundStream.py', 'ndspy/soundWave.py', 'ndspy/texture.py', 'ndspy/model.py', 'ndspy/graphics2D.py', 'ndspy/fnt.py'],
  [('load and save checks', 'constructors and save methods of all format classes'), ('names and info blocks', 'ndspy/_common.py:saveInfoBlock, ndspy/fnt.py:save')])

p('P41', 'ROMs, sound archives and message files in other layouts load the same',
  'A ROM image whose regions and files are stored in any order, with any gaps and alignments, with files that share data and empty files located anywhere, starting anywhere behind the header, loads with exactly the code, post-data, tables, names, banner, debug ROM and files its header and allocation table describe; the signature is read from where the word at 0x1000, or the header if that word is zero, says (images that start below 0x1004 excepted). '
  'A sound archive whose blocks, lists, records, names and files are stored in any order, with gaps, shared names, records or files, files nobody refers to, without names, or with fewer names than entries or the reverse, loads with the entries and names it defines; so do sequence files and archives whose events start behind a gap. '
  'A message file loads the same with its sections in any order and its strings stored in any order, shared, or with unused data between them. Saving any of these keeps the contents.',
  ['inputs'], 'every order of the regions, blocks, sections and files of representative contents, and every pair of other layout choices',
  'Tests and most users only load files in the usual layout; offsets that are assumed rather than read go unnoticed.',
  ['ndspy/rom.py', 'ndspy/soundArchive.py', 'ndspy/bmg.py', 'ndspy/soundSequence.py', 'ndspy/soundSequenceArchive.py'],
  [('loading', 'ndspy/rom.py:NintendoDSRom._initFromData, ndspy/soundArchive.py:SDAT._initFromData, ndspy/bmg.py:BMG._initFromData, SSEQ and SSAR constructors')])

p('P42', 'The stand-alone tools convert filename tables, archives and LZ10 data faithfully',
  'tools/fnttool.py reads a filename table from a table file, its own JSON form, a NARC or a ROM and writes the same table (folders, names of files and folders in order, first IDs) to a table file or as JSON, or puts it into an existing NARC or ROM, of which nothing else changes: the files, code, header fields and the byte order of the header are kept. All 16 pairs work, also with the output over the input, and with any Latin-1 names. The JSON form of a folder has first_id, and files and folders unless empty; both may be missing or empty on input. '
  'tools/lz10tool.py writes exactly what ndspy.lz10 makes of the input: it compresses with -c, decompresses with -d, and otherwise decompresses when the first byte is 0x10 and compresses when it is not or there is none; the output is the named file, or the input name with .lz10 or .raw appended. '
  'The low-level extraction of tools/narctool.py (-l) makes the output folder if needed (the input name with .dir appended if none is named) and writes filenames.json in the same JSON form and every file as file_<ID in at least four digits>_<name> (for archives whose files all have names usable as file names). '
  'The input is never changed (unless it is named as the output) and no other file is touched. A missing input, missing or contradictory options, a NARC or ROM to insert into that does not exist, and data that cannot be read make them fail without creating or changing any file.',
  ['inputs'], 'every pair of input and output forms over all folder trees up to the bound, every option and naming of the output',
  'No test runs the tools at all.',
  ['tools/fnttool.py', 'tools/lz10tool.py', 'tools/narctool.py', 'tools/_common.py'],
  [('tools', 'tools/fnttool.py:main, tools/lz10tool.py:main, tools/narctool.py:main'), ('JSON form of filename tables', 'tools/_common.py')])

p('P43', 'Constructors and factories fill the named attributes and keep their defaults',
  'Every constructor and factory class method of the documented classes (and of BNBL, BNCL, graphics2D and texture classes) accepts its parameters by position in the documented order or by name, in any combination in which the optional ones are given or left out, and puts each value into the attribute of its name (the first parameter of NoteDefinition into waveID and dutyCycle, of SSARSequence into firstEvent or firstEventOffset; a single string as the parts of a message becomes a list; the options of a GroupEntry are its four flags as bits 0 to 3; palette data or colours become colors; the parameters word of a Texture and the velocity byte of a note are split into their fields). '
  'What is not given has the documented default, as have all other attributes of new objects (such as those of NintendoDSRom, SDAT and STRM). Lists, sets, dictionaries and folders given are not changed, and those made by default are not shared between objects. '
  'Where save() is documented to match the constructor parameters (SSEQ, SSAR, SSARSequence, SWAR, SBNK, STRM, SequencePlayer, GroupEntry), passing its result to the constructor gives the attributes back.',
  ['inputs'], 'every subset of optional arguments, every split into positional and keyword arguments, all combinations of values up to the bound',
  'Tests make few objects by hand, mostly with the same arguments; swapped, dropped or shared arguments go unnoticed.',
  ['ndspy/bmg.py', 'ndspy/bnbl.py', 'ndspy/bncl.py', 'ndspy/code.py', 'ndspy/fnt.py', 'ndspy/graphics2D.py', 'ndspy/narc.py', 'ndspy/rom.py', 'ndspy/soundArchive.py', 'ndspy/soundBank.py', 'ndspy/soundGroup.py', 'ndspy/soundSequence.py', 'ndspy/soundSequenceArchive.py', 'ndspy/soundSequencePlayer.py', 'ndspy/soundStream.py', 'ndspy/soundStreamPlayer.py', 'ndspy/soundWave.py', 'ndspy/soundWaveArchive.py', 'ndspy/texture.py'],
  [('constructors and factories', '__init__ and from... class methods of all classes')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P))
