"""Regenerates DESIGN.md: the prose below, plus the bounds of every check and the list of planted bugs."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [V, '/repo']

HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(V, 'tools', 'design_tail.md')).read()

# For each property: what is modelled and what the results are compared with;
# then why the existing tests do not settle it.
HOW = {
'P01': ('The specification is the LZ10 stream format. Each input is compressed by the library; `mc/ref_lz.py` parses the stream token by token (flag bits, lengths 3-18, distances 1-4096, declared size, zero-filled end) and decodes it, and the library decodes it too. Both must give the input back.',
        'Match limits and window edges only matter for inputs at exact lengths and distances; no test compresses anything.'),
'P02': ('Streams are generated from token sequences by an independent encoder that may choose any legal token, so the enumeration is over *streams*, not over what the library\'s compressor emits. The expected output is what interpreting the tokens gives.',
        'The library never produces most of these streams itself, so round-trip tests cannot reach them.'),
'P03': ('The reference decoder in `mc/ref_lz.py` simulates decoding in place, as the console does: one buffer, read and write cursors moving down, and an error as soon as a write passes an unread byte. Size fields and the verbatim ARM9 prefix are checked on the same trace.',
        'In-place safety is a property of the whole token sequence, and fails only for data that barely compresses.'),
'P04': ('As P02, for backwards-LZ files: raw prefix, token sequence, footer padding and trailer are enumerated by an independent writer. Data without a footer is enumerated separately over footer-like bytes.',
        'Needs every footer and trailer shape; there are no tests for it.'),
'P05': ('The model is a nested tuple tree. An independent writer produces tables in five storage layouts, an independent reader checks the library\'s tables (folder IDs, parents, offsets, counts).',
        'Wrong parents or first IDs need two levels of nesting and unusual ID orders.'),
'P06': ('The model is the list of (path, ID) pairs of the tree. For each tree every path over the name alphabet and every ID near the used ones is asked, relative to every folder, through all four ways of asking.',
        'Lookup defects need repeated names at different levels or overlapping ID ranges.'),
'P07': ('The model is (files, tree, endianness). An independent reader walks the saved archive\'s blocks and checks ranges; an independent writer produces archives in other storage orders and alignments.',
        'Empty files, odd sizes and foreign layouts.'),
'P08': ('Explicit-state exploration of histories: the model state is the list of file contents plus the fixed names; after every operation the whole object is compared with the model.',
        'A history property; tests use single calls.'),
'P09': ('The model is a dictionary of all ROM parts and header fields. Parts are combined exhaustively from small value sets; header fields are checked bit by bit at documented offsets of the saved header.',
        'A combination property over nine optional parts.'),
'P10': ('An independent reader extracts every region named by header and allocation table, checks bounds, overlap, alignment and contents, and recomputes both CRC-16 values bit by bit.',
        'Overlap and checksum mistakes still load back in the library itself.'),
'P11': ('An independent writer produces canonical images; loading and saving must be the identity, over two rounds.',
        'Depends on storage order and emptiness of files in combination.'),
'P12': ('The model is the settings block and section table; images with 0-3 sections are built independently with the settings at several places and found in six different ways.',
        'Needs images with misleading data, BSS-only sections, odd sizes.'),
'P13': ('Tables are encoded independently in the 32-byte console format; every bit of every field is exercised, and histories of edits and saves are explored with the model keeping sizes and flags.',
        'Flag bits and ID order.'),
'P14': ('The model is the list of parts per message. The independent reader in `mc/ref_bmg.py` checks sections, offsets, terminators and padding; the independent writer produces shared strings and other section orders.',
        'The tests contain a handful of fixed files; escapes, encodings and padding boundaries are combined here.'),
'P15': ('Lists of instructions, labels and scripts over small value sets including all-zero values; compared index by index.',
        'Zero entries in the middle look like padding.'),
'P16': ('The model is eight lists of (name, entry). `mc/ref_sdat.py` reads blocks, symbols, info records and file table on its own.',
        'Missing entries and names in every combination of kinds.'),
'P17': ('The model partitions entries by (kind, data, merge ID); the number and identity of stored files in the saved archive must be that partition.',
        'Sharing is invisible to a plain round trip.'),
'P18': ('Archives are laid out independently for each option combination, with files starting at every multiple of 8 modulo 0x200; load/save must be the identity.',
        'Alignment guesses depend on accidental remainders.'),
'P19': ('`mc/ref_seq.py` holds an independent encoder and decoder of all event types. All values of one- and two-byte parameters are enumerated.',
        'Signedness, variable-length limits and nested events.'),
'P20': ('`mc/ref_seq.py:explore` is an abstract interpreter: the set of reachable offsets is computed as a fixed point over program counter and call stack. The library\'s parse must contain exactly the reachable events, and raw data elsewhere. All byte strings and all small programs are enumerated.',
        'Control-flow following is quantified over programs.'),
'P21': ('The model is the list of event objects with object-identity references. After each edit history the data is saved, decoded independently and every reference compared.',
        'A history property over aliased objects.'),
'P22': ('Histories of parse/save/reload over files produced by an independent writer; the model is (events data, entry points, attributes, names).',
        'Parsing must be invisible in what is saved.'),
'P23': ('Banks as lists of model instruments; independent reader in `mc/ref_bank.py`.',
        'Boundary pitches, missing instruments, region limits.'),
'P24': ('The model gives the storage order (type, order key) and the sharing partition; banks with unreachable instruments are laid out independently and must be reproduced.',
        'Invisible to a plain round trip.'),
'P25': ('Waves and archives are decoded by an independent reader; fields enumerated at all boundaries.', 'No tests.'),
'P26': ('Streams over channel counts, block counts and all small block lengths; independent reader.', 'Last-block arithmetic.'),
'P27': ('All 65536 colours, all paths of conversions. The oracle is the bit layout.', 'Exhaustive, not sampled.'),
'P28': ('All pixel values at all positions; all 65536 tilemap entries; oracle is the hardware bit layout.', 'Exhaustive, not sampled.'),
'P29': ('The oracle computes each output pixel from tile, palette, flips and position with integer arithmetic.', 'Widths that do not divide the tile count.'),
'P30': ('The model is lists of named textures and palettes; `mc/ref_tex.py` writes and reads texture files on its own, in other layouts too.', 'Equal names, empty palettes, shared data.'),
'P31': ('The oracle decodes each texel format from the hardware definition, one pixel at a time.', 'Every mode of the block format with every colour pair.'),
'P32': ('Model files are built independently; model data must be untouched byte for byte and textures transferred exactly, over histories of export/import.', 'No tests.'),
'P33': ('All positions, sizes and alignment codes; oracle is the bit layout and the anchor arithmetic of the statement.', 'Exhaustive, not sampled.'),
'P34': ('A reference player executes event lists (time, mono/poly mode, loops, calls) and gives the timeline of events; each editing function is compared with its effect on that timeline.', 'Quantified over event lists and edit histories.'),
'P35': ('The reference player resolves every note to (definition parameters, wave data) before and after minifying; the two lists must be equal, and what is unused must be gone.', 'Renumbering mistakes depend on which subset is in use.'),
'P36': ('Every file function is run in a scratch directory next to its in-memory counterpart, over path kinds, options and prior file states; the directory listing is compared too.', 'Files are only tested for BMG.'),
'P37': ('`mc/zoo.py` makes objects of 22 kinds and takes deep snapshots. Every mutable part of either of two objects is changed and the other snapshot compared; histories of save/edit/reload/copy are explored.', 'Aliasing is invisible to single round trips.'),
'P38': ('Texts are parsed back: byte literals with the Python literal parser, detailed forms by evaluating them, listings line by line against the model.', 'Escaping errors need specific adjacent bytes.'),
'P39': ('The model is a list of pairs; all lists and all call histories within the bound.', 'Duplicates, None and empty names.'),
'P40': ('A table of every number field and its width, every magic and version number, and every count or length limit; the oracle is the width of the field: a value inside must come back from save and load, one outside must raise. All single-byte changes of magics, all version numbers and all values around each limit are tried.',
        'Tests load and save only valid data, so a check that is dropped or a mask that is added goes unnoticed.'),
'P41': ('Independent writers place the regions of ROMs, the blocks, records, names and files of sound archives and the sections and strings of message files in every order and with every pair of other layout choices; the loaded object must equal the model the file was written from, and again after saving.',
        'No test has a file in an unusual layout.'),
'P42': ('The tools are run (in the checking process, and for every form once more as separate processes) in a scratch directory on inputs made by independent writers; all files of the directory afterwards are compared with what an independent reader and the library say they must be.',
        'No test runs the tools; three of the four files did not work at all for common inputs.'),
'P43': ('A table written from the documentation lists, for 109 constructors and factories, the parameters in order with their defaults and two or more values each. Every subset of the optional ones, every split into positional and keyword arguments and every combination of values is passed, and all attributes of the resulting object are compared with the table.',
        'Tests make objects with few arguments; each of these calls is a different path through the argument handling.'),
}


def bound(s, tier):
    return s.bound(tier) if callable(s.bound) else s.bound


out = [HEAD.rstrip(), '', '## The properties', '']
for line in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(line)
    pid = d['id']
    mod = importlib.import_module('checks.' + pid.lower())
    how, why = HOW[pid]
    out += ['### %s %s' % (pid, d['title']), '', how, '', 'Beyond the tests: ' + why, '', 'Enumerated (every case of each, on the real code):', '']
    for s in mod.spaces:
        q, t = bound(s, 'quick'), bound(s, 'thorough')
        out.append('* *%s*: %s%s' % (s.name, q, '' if q == t else ' (thorough: %s)' % t))
    out.append('')
rows = []
seeded = os.path.join(V, 'seeded')
for name in sorted(os.listdir(seeded)):
    m = json.load(open(os.path.join(seeded, name, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (name, m['property'], m['what_it_breaks'], m['needs']))
tail = TAIL.replace('@SEEDED@', '\n'.join(['| change | caught by | breaks | needs |', '|---|---|---|---|'] + rows))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n' + tail)
