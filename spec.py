#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: `python3 spec.py` rewrites both."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
A = []          # (id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], technique, level_note) ; technique None -> not applicable, level_note = reason
def p(*a): A.append(a)
PA, RE = 'thermal_parser/src/', 'thermal_renderer/src/'

p('C05', 'Formatting commands set exactly the attributes their operand names',
  'Each text-formatting command (emphasis, italic, underline, double strike, upside-down, smoothing, font, character size, print mode, justification, colour, white/black invert, character effects, line spacing) gives the attributes named by its ESC/POS definition the value its operand selects, for every operand byte and whatever the printer state was before. On/off commands look at the lowest operand bit, print mode takes font, emphasis, double height, double width and underline from bits 0, 3, 4, 5 and 7, character size takes height from bits 0-2 and width from bits 4-6, and selector commands accept both the binary and the ASCII-digit form of a value with unknown values meaning the default. No other piece of printer state changes.',
  ['inputs', 'histories'], 'all 256 operand values of each formatting command, from every prior printer state',
  'The sample receipts use a handful of operand values, always from a near-default state, and the rendering tests only look at error counts, so a wrong bit or a clobbered attribute goes unseen.',
  [PA + 'commands', PA + 'context.rs', RE + 'renderer.rs'],
  [('command handlers write Context fields', PA + 'commands/*.rs'), ('device commands applied to the Context', RE + 'renderer.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis) against an operand table',
  'Decides every operand value and every prior Context for the listed opcodes from the MIR of the dispatch routine; trusts rustc MIR, the models of std calls and the table transcribed from the ESC/POS reference.')

p('C06', 'Barcode and 2D-code settings store their operand in their own setting only',
  'Each barcode or 2D-code setting command (barcode height, width, HRI position, HRI font; PDF417 columns, rows, module width, truncation; QR model, module size, error correction; MaxiCode mode; GS1 DataBar and composite widths and maximum widths; Aztec mode, layers, size, error correction; DataMatrix size, module width) stores the value its operand selects by the ESC/POS definition in the setting it names, for every operand value and every prior printer state. Out-of-range operands leave the setting alone or select its documented default. No other piece of printer state, in particular no setting of another symbology, changes.',
  ['inputs', 'histories'], 'all 256 values of every operand byte of each setting command, from every prior printer state',
  'The barcode samples use one setting per symbology in a fixed order from the default state, so a clobbered neighbouring setting or a wrong operand position leaves the rendered error counts alone.',
  [PA + 'commands', PA + 'graphics.rs', PA + 'context.rs', RE + 'renderer.rs'],
  [('GS ( k setting handlers', PA + 'commands/subcommands.rs'), ('barcode setting handlers', PA + 'commands/*.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis) against an operand table',
  'Decides every operand value and every prior Context for the listed opcodes; trusts rustc MIR, the models of std calls and the table.')

p('C07', 'Positioning and feed commands move the cursor by the motion-unit formula',
  'ESC $, GS $, GS \\, GS P, ESC J, ESC d, ESC e and GS V 0/49/65/66/98 move the print cursor by exactly the distance the ESC/POS definition gives: 16-bit little-endian operands divided by the horizontal or vertical motion unit, feeds in dots, line feeds in multiples of the line spacing, reverse feeds stopping at the top of the area, GS P units clamped to 1..255. In standard mode they move only the standard-mode cursor (GS $ and GS \\ do nothing there), in page mode only the page-mode cursor, measured from the side of the print area that the print direction starts at; feeds return the cursor to the left edge of the active area. Nothing else in the printer state changes.',
  ['inputs', 'histories'], 'all operand values of each positioning command, in both modes and all print directions, from every cursor position up to 2^30 dots and all motion units',
  'Tests never look at cursor coordinates, only at error counts of rendered samples.',
  [PA + 'context.rs', PA + 'commands', RE + 'renderer.rs'],
  [('Context cursor methods', PA + 'context.rs'), ('feed device commands', RE + 'renderer.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis), relational check of the cursor terms',
  'Decides the cursor terms for all operands and prior states with coordinates up to 2^30; the page-mode direction that the ESC/POS text leaves open (ESC $ in TopRight2Bottom) is not specified.')

p('C01', 'Supported opcodes are recognised in any context, and nothing else is',
  'Parsing any byte string splits it into commands, text runs and unknown sequences exactly as the supported ESC/POS opcode table says, no matter which command, text or unknown sequence came before. A completed opcode starts its command as soon as the previous command has its operands; bytes that introduce no command form one text run; a sequence starting with DLE, ESC, FS or GS that is no supported opcode (or a GS ( k / GS ( L / GS 8 L packet naming no supported function, or cut off by the end of the input) becomes an Unknown command that absorbs the non-command bytes after it. CAN that is not followed by @ is an Unknown command of its own, and the byte after it is read normally.',
  ['inputs', 'histories'], 'all byte strings up to three arbitrary bytes from the start, and two or three arbitrary bytes after a complete use of each supported command, text and unknown sequence',
  'The sample receipts contain a few dozen opcode transitions out of thousands; a mis-registered opcode or a parser state left behind by one command only shows in transitions no sample contains.',
  [PA + 'parser.rs', PA + 'command_sets/esc_pos.rs', PA + 'commands'],
  [('byte-wise opcode matching', PA + 'parser.rs'), ('opcode registry', PA + 'command_sets/esc_pos.rs')],
  'abstract interpretation of MIR: partition of byte strings compared with a reference lexer',
  'Bounded at three arbitrary bytes after each kind of token; the parser keeps no state across tokens other than the open command, whose operand automaton is decided without bound by C03.')

p('C02', 'Parsing loses, duplicates and reorders no input byte',
  'Joining the bytes each parsed command reports through get_command_bytes (for Unknown commands: their data), in order, gives back the parsed input: barcodes, bit images, raster images, graphics and 2D-code packets keep their header and data bytes, bytes of unsupported or cut-off sequences end up in Unknown commands, and the end of the input never drops a command. The only exception is an unterminated NUL-terminated barcode, which may get its terminator added.',
  ['inputs'], 'the byte strings of C01 plus every data-carrying command with arbitrary data bytes, complete or cut off by the end of the input',
  'No test compares the parsed commands with the input bytes.',
  [PA + 'parser.rs', PA + 'command.rs', PA + 'subcommands/mod.rs', PA + 'commands/barcode.rs', PA + 'commands/bit_image.rs', PA + 'commands/raster_bit_image.rs'],
  [('command emission', PA + 'parser.rs'), ('get_command_bytes implementations', PA + 'command.rs')],
  'abstract interpretation of MIR: byte provenance of every outcome',
  'Bounded string lengths (as C01; data commands with two or three arbitrary data bytes, data lengths beyond that are covered by the inductive C03).')

p('C03', 'Every command takes exactly the operand and data bytes it declares',
  'Each supported opcode takes its fixed number of operand bytes, whatever their values, and keeps them in order; barcodes with m 65-79, bit images, raster images, GS ( k, GS ( L, GS ( H, GS ( G, GS 8 L and GS ( N packets take exactly the number of data bytes their length header declares (up to 4294967295), and barcodes with m 0-6 take data up to the first NUL. The next byte after that is never taken as data. GS V takes a second operand only for the feed variants.',
  ['inputs', 'sizes'], 'all operand values and all declared lengths, by induction on the number of data bytes already taken',
  'A length off by one, or truncated for large values, silently shifts everything printed after it and only shows for data sizes the samples do not contain.',
  [PA + 'command.rs', PA + 'subcommands/mod.rs', PA + 'commands/barcode.rs', PA + 'commands/bit_image.rs', PA + 'commands/raster_bit_image.rs', PA + 'commands/set_character_effects.rs', PA + 'commands/feed_and_cut.rs', PA + 'util.rs'],
  [('Command::push', PA + 'command.rs'), ('custom push automata', PA + 'commands/*.rs, ' + PA + 'subcommands/mod.rs')],
  'abstract interpretation of MIR with an inductive step over the data length',
  'Unbounded in the declared length; the inductive invariant (handler fields that count data bytes) is inferred and checked, an automaton it does not fit is reported as undecided.')

p('C08', 'Page mode is entered, laid out, printed and left as ESC/POS defines',
  'ESC L enters page mode and tells the output a page begins; ESC S and FF leave it again (FF printing the page at the standard cursor and moving that cursor below it), ESC FF prints the page without leaving, and outside page mode ESC S, ESC FF, ESC W and ESC T change nothing. In page mode ESC W stores its four little-endian words, divided by the motion units, as the logical area, maps it onto the page by the print direction, grows the page to hold it and reports the change; ESC T selects the direction (0/48, 1/49, 2/50, 3/51; anything else the default), swaps the page size on an odd quarter turn and reports the rotation from the old direction. Nothing else in the printer state changes.',
  ['inputs', 'histories'], 'all operand values, from every prior printer state in standard or page mode with every print direction',
  'Page mode appears in one sample in one direction, and its areas, rotations and cursor hand-over are never inspected.',
  [PA + 'context.rs', PA + 'commands', RE + 'renderer.rs'],
  [('page mode state', PA + 'context.rs'), ('page mode device commands', RE + 'renderer.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis), relational check of areas and output calls',
  'Coordinates up to 2^30 dots; trusts rustc MIR, the models of std calls and that output implementations do not change the printer state (C21).')

p('C16', 'Text is decoded by the selected code table and character set',
  'Text bytes are shown as the characters of the code table chosen by ESC t (0 PC437, 1 Katakana, 2 PC850, 3 PC860, 4 PC863, 5 PC865, 11 PC851, 12 PC853, 13 PC857, 255 UTF-8; unsupported numbers PC437), with the national replacement characters of the international set chosen by ESC R (1-15) in its twelve ASCII positions, whichever of the two was selected first and whatever was selected before. Every byte of a text run is decoded, in order, to exactly one character (UTF-8 excepted), and bytes below 0x80 outside the replaced positions are ASCII. Selecting a table or set changes nothing else.',
  ['inputs', 'histories'], 'every ESC t and ESC R operand after every earlier selection, every byte value at every position of a text run',
  'The samples show a few characters of a few tables, and nothing compares the decoded characters.',
  [PA + 'decoder.rs', PA + 'context.rs', PA + 'commands', RE + 'renderer.rs'],
  [('character decoder', PA + 'decoder.rs'), ('code table and character set commands', PA + 'commands')],
  'abstract interpretation of MIR (path-sensitive value analysis) against reference code tables',
  'Tables transcribed from the ESC/POS and code page references; character sets 16, 17 and code table positions on which references differ are left open.')

p('C24', 'Text is broken into lines, tabbed, justified and advanced exactly by its widths',
  'When pending text is printed, its words (each with its trailing blank) are placed left to right at the cursor, each as wide as its characters; a word that does not fit the rest of the line (from page origin plus area width) moves to the next line, one wider than the area is split after the characters that fit, LF ends the line, and HT moves to the next tab stop to the right of the cursor. Each line goes to the output once, with the words of that line in order, their positions and unchanged styles, a justification offset of 0 (left, or line too wide), half or all of the free width, and the tallest word as height. A finished line moves the cursor down by the larger of the line spacing and that height and back to the line start, and no text is lost, duplicated or left pending.',
  ['inputs', 'histories'], 'all character sizes, cursor positions, area sizes and line spacings, for representative word, tab and line feed sequences in each justification and mode',
  'The samples hold a few receipts at one width, and nothing checks the positions given to the output.',
  [RE + 'renderer.rs'],
  [('text layout', RE + 'renderer.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis) against a reference line breaker',
  'Coordinates up to 2^30 dots, character widths 1 to 96; text of the listed word shapes; cases the analysis cannot order are listed as undecided.')

p('C14', 'Pending text is printed in order, before anything that follows it acts',
  'Printable text, HT, LF and CR are appended to the pending text and do nothing else. A command that styles later text (ESC E 4 { - G M ! R t r, GS b ! B, GS ( N) leaves the pending text untouched and unprinted. Every other command that changes the printer state or calls the output, and the end of the input, first prints exactly the pending text, in the state before that command, and leaves nothing pending.',
  ['inputs', 'histories'], 'every command with every operand value, every pending text and printer state, and every kind of graphic a graphics command can draw',
  'A missing or late flush shows only in particular command orders that the samples do not contain.',
  [RE + 'renderer.rs', PA + 'commands', PA + 'command.rs'],
  [('command processing', RE + 'renderer.rs'), ('command kinds', PA + 'commands')],
  'abstract interpretation of MIR (path-sensitive value analysis), event order on every path',
  'Graphics are arbitrary values of each kind, so how they are decoded is left to other checks; trusts that output implementations leave the printer state alone (C21).')

p('C13', 'Text carries exactly the style that was selected when it was received',
  'The span collected for printable text, HT, LF or CR holds the font, bold, italic, invert, upside-down, justification, text colour and background colour of the printer state at that moment, the base character size of the font, a character size and stretch equal to that size times the current width and height multipliers, and an underline and strikethrough thickness of 0 when off, 1 point when single and 2 points when double, in whole dots at 96 points per inch. It holds no position yet, and later style commands do not reach it.',
  ['inputs', 'histories'], 'every printer state, every text byte',
  'The samples use few style combinations, and no test looks at the collected spans.',
  [PA + 'text.rs', PA + 'context.rs', PA + 'commands', RE + 'renderer.rs'],
  [('text spans', PA + 'text.rs'), ('text collection', RE + 'renderer.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis), field by field comparison with the symbolic state',
  'Resolutions 180, 203 and 360 dpi.')

p('C17', 'ESC @ restores the power-on settings and keeps paper position and NV graphics',
  'A print starts with the documented power-on settings: font A 12x24, size 1x1, all styles off, black on white, left justified, line spacing 24, PC437, tab stops every 8 characters, barcode 3x40 without text, QR size 3 level L, 203 dpi, motion units 1, standard mode, no page area, no buffered graphics. ESC @ gives every text, barcode, 2D code, graphics and page mode setting its power-on value, ends page mode, deletes download graphics and stored 2D symbols, tells the output, and prints nothing but pending text. It keeps the vertical paper position and the NV graphics, and no command alters the power-on values it restores.',
  ['inputs', 'histories'], 'every printer state in standard and page mode, every stored graphic, every command before it',
  'No sample initializes in mid-print after changing every setting, so a setting that leaks through goes unseen.',
  [PA + 'context.rs', PA + 'commands/initialize.rs', RE + 'renderer.rs'],
  [('power-on state and reset', PA + 'context.rs'), ('ESC @', PA + 'commands/initialize.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis), field by field comparison with the power-on snapshot',
  'Trusts the model of HashMap and that output implementations leave the printer state alone (C21).')

p('C22', 'Every print yields its outputs and reports each error exactly once',
  'Rendering parses the whole input once, processes every command once and in order, and hands over exactly the outputs and errors raised, in order, keeping none for the next print. An unknown command or subcommand adds one UnknownCommand error and has no other effect; a graphics command that fails adds one GraphicsError with its message and draws nothing; the end of a print (end of input, or FF in standard mode) adds one ChildRenderError per message of the output and then exactly one output, the one the renderer returned. No other command adds errors or outputs.',
  ['inputs', 'histories'], 'every command with every operand value, any previously buffered errors and outputs, command lists of up to 3 commands with arbitrary effects',
  'The samples contain no errors and one print each, so lost, repeated or leaked errors are never seen.',
  [RE + 'renderer.rs'],
  [('render loop and error log', RE + 'renderer.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis) of the render loop and of every command on unknown buffers',
  'The render loop is analysed for lists of up to 3 commands (6 in the thorough tier) and up to 3 output messages.')
p('C15', 'Outputs are told of every device action, and inert commands do nothing',
  'Each command notifies the output of exactly its own device actions, in order, with its operands: ESC @ Initialize, CAN @ Cancel, ESC J Feed(n), ESC d FeedLine(n), ESC e FeedLine(-n), ESC D ChangeTabs, ESC a Justify, GS ! SetTextWidth and SetTextHeight, the page mode commands (only in page mode, ESC L always), GS V FullCut (0, 48, 65, 97, 103) or PartialCut (1, 49, 66, 98, 104) followed by Feed(n) from 65 up, ClearBufferGraphics after GS ( L or GS 8 L print, BeginPrint with begin_render, and EndPrint with end_render (also FF in standard mode). All other commands notify nothing, and ESC p, ESC =, ESC c 3/4/5, GS I, GS ( H, GS ( G, CAN @ and the GS ( k size transmissions leave the printer state unchanged.',
  ['inputs'], 'every command with every operand value in standard and page mode from every printer state',
  'Tests look at the final picture only, never at cuts, feeds or notifications given to an output.',
  [RE + 'renderer.rs', PA + 'commands', PA + 'subcommands', PA + 'command.rs'],
  [('device commands', RE + 'renderer.rs'), ('command handlers', PA + 'commands')],
  'abstract interpretation of MIR (path-sensitive value analysis), output call sequences against a table',
  'How graphics are drawn is left to other checks.')

p('C09', 'GS k draws the symbology its type selects, from exactly its data',
  'GS k with type 0-6 or 65-71 encodes UPC-A, UPC-E, EAN-13, EAN-8, CODE39, ITF and Codabar, 72 CODE93 and 73 CODE128, both for NUL terminated and counted data: UPC-A as EAN-13 with a leading 0 and the first 11 digits, EAN-13 from the first 12, CODE39 without asterisks, CODE128 with {A {B {C as code set switches, all others from the data as sent. The bars are those of that encoder, with the current module width and height, and the human readable text is the data as sent (CODE128 without switches) in the current HRI font and position setting. Types 74-79 and unknown ones, data of a length the symbology does not have and data its encoder refuses become a reported graphics error, never bars.',
  ['inputs'], 'every type, the listed constant data and arbitrary printable data of a fixed length per type, both results of the encoder, every printer state',
  'A wrong encoder or rewritten data still gives plausible bars; the tests compare no bars and use few data per type.',
  [PA + 'commands/barcode.rs', PA + 'text.rs'],
  [('barcode command', PA + 'commands/barcode.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis); third-party encoders as opaque terms with both results',
  'The encoders of the barcoders crate are trusted; symbolic data has the fixed length per type given in the check, other lengths are covered by constant data.')

p('C26', 'A UPC-E barcode stands for the UPC-A number of its data',
  'UPC-E data of 6 (number system 0), 7 or 8 digits is expanded to its UPC-A number by its last digit, data of 11 or 12 digits is that number, and without a given check digit the modulo 10 check digit is computed. The symbol drawn consists of guard 101, six digits of 7 modules and guard 010101; read back with the parity table of number system and check digit it yields exactly that UPC-A number. Data with another length or other characters, number systems above 1 and numbers that have no UPC-E form become a graphics error, and no data crashes it.',
  ['inputs'], 'all digit strings of 6, 7, 8, 11 and 12 digits, every number system, check digit and digit pattern',
  'The repository tests a handful of codes; a wrong parity row or compression rule shows only for particular digits and is invisible to the eye.',
  [PA + 'utils/barcodes/upce.rs', PA + 'commands/barcode.rs'],
  [('UPC-E conversion', PA + 'utils/barcodes/upce.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis): each path of the conversion expands to its input, module tables enumerated',
  'The path analysis reads the digits of the current representation of UPCE; another representation is covered by constant data only.')

p('C12', 'Bars, 2D symbols and images are placed at the print position',
  'A barcode or 2D symbol starts at the justified position of its whole width (at the left edge when it is wider than the area) and each dark module becomes one rectangle of module width and height on that grid, except those that would end beyond the right edge of the print area; afterwards printing is at the line start below it. The human readable text is printed one line above the bars and/or 8 dots below them, as the current setting says, followed by a line feed. Block images (GS v 0, GS ( L) are justified and move printing to the line start below them in standard mode, inline bit images stand at the current position, or on the next line when they do not fit, and move it by their width.',
  ['inputs'], 'every start position, print area, line spacing, justification, HRI setting and mode, any module size and image size',
  'The tests render a few receipts; positions, clipping and the position after a symbol depend on the combination of justification, area, mode and size.',
  [RE + 'renderer.rs', PA + 'context.rs'],
  [('graphics placement', RE + 'renderer.rs'), ('position and justification', PA + 'context.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis) with symbolic position, area and module size; placement formulas compared on every path',
  'Dot patterns of up to 6 modules stand for longer ones; positions start inside the print area; where a block image leaves the position in page mode is not specified.')

p('C31', 'Every bit of image data becomes one dot at its row and column',
  'In ESC *, GS v 0 and the raster and column graphics of GS ( L and GS 8 L, each data bit, most significant first, decides exactly one dot: the dot at its row and column is opaque in the paint colour (colour 1, or the number the command selects) when the bit is set and transparent when it is clear, padding bits draw nothing, and the image has the size the command states. Dots are enlarged as the density, scale or bx by parameters say (ESC * m 0 2x3, m 1 1x3, m 32 2x1, m 33 1x1). Graphics whose data does not have the length the size requires are reported as an error and not drawn.',
  ['inputs'], 'all data bytes for a grid of image sizes (padded and whole bytes, one and several rows, more than 255 wide or high), layouts, modes and colours',
  'A flipped axis, wrong padding or a lost bit only shows for particular sizes and bit patterns; the tests check that samples render, not what they show.',
  [PA + 'graphics.rs', PA + 'commands/bit_image.rs', PA + 'commands/raster_bit_image.rs', PA + 'subcommands/gs_graphics/mod.rs'],
  [('bit unpacking', PA + 'graphics.rs'), ('bit image', PA + 'commands/bit_image.rs'), ('raster image', PA + 'commands/raster_bit_image.rs'), ('graphics subcommands', PA + 'subcommands/gs_graphics/mod.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis, branch joining) on symbolic data bytes; every dot compared as a function of the data bits',
  'Sizes come from a fixed grid; the data bits are all symbolic. One colour layer; layering is C11.')

p('C10', 'The stored QR code is the one the data and settings ask for',
  'Storing QR data (GS ( k, cn 49 fn 80) keeps the symbol of exactly the data bytes after the parameter m, with the error correction level set by fn 69, as the model selected by fn 65 (Model 1 versions 1-14, Model 2 versions 1-40, Micro), in the smallest version from the one whose level L byte capacity holds the data in which it can be encoded; dark modules are 1, light modules 0, and the size of a module is the one set by fn 67 - and when no version can hold the data nothing stays stored. Storing data of another symbology (PDF417, MaxiCode, GS1 DataBar, composite, Aztec, DataMatrix) removes the stored QR code. Printing (fn 81) draws the stored symbol unchanged; with nothing stored QR reports an error and the other symbologies draw nothing.',
  ['inputs', 'histories'], 'all data bytes and all outcomes of the encoder for a grid of data lengths around the capacities, models and correction levels, after any earlier store',
  'Stale symbols, a swapped correction level or a version that is too small only show for particular histories and lengths; the tests render one small code.',
  [PA + 'subcommands/gs_code2d/qr_store.rs', PA + 'subcommands/gs_code2d/mod.rs', PA + 'subcommands/gs_code2d/pdf417_print.rs'],
  [('storing', PA + 'subcommands/gs_code2d/qr_store.rs'), ('dispatch', PA + 'subcommands/gs_code2d/mod.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis) with the QR encoder as an uninterpreted function whose success or failure is explored both ways',
  'The qrcode crate itself is not analysed: its result is an opaque symbol of the arguments handed to it.')

p('C11', 'Stored graphics are drawn as they were last defined',
  'A graphic defined under a key code pair (GS ( L / GS 8 L, NV fn 67/68, download fn 83/84) is drawn by the print function (NV 69, download 85) of the same store with exactly the dots of the last definition, enlarged by the bx and by of the print command, until it is deleted by key (NV 66, download 82) or with its whole store (NV 65, download 81): other keys and the other store are untouched, and an undefined key draws nothing. The colour layers of one graphic are put on top of each other in their order, a set dot of a later layer covering the earlier ones. Buffered graphics (fn 112/113) are drawn merged in the same way by fn 2/50, which leaves the buffer empty; a layer that is in error is reported and nothing is drawn.',
  ['inputs', 'histories'], 'all key codes (equal and different ones) and data bytes for every sequence of define, delete and print operations of a grid of histories',
  'A wrong key comparison, a deletion that takes too much or a stale buffer only shows after particular sequences; the tests never delete or redefine anything.',
  [PA + 'graphics.rs', PA + 'context.rs', PA + 'subcommands/gs_graphics/mod.rs'],
  [('layer merging', PA + 'graphics.rs'), ('storage', PA + 'context.rs'), ('graphics subcommands', PA + 'subcommands/gs_graphics/mod.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis) over operation histories with symbolic keys and data bytes',
  'Layers are not larger than the first layer; histories and sizes come from a fixed grid.')

p('C18', 'The image output puts every dot at its place and changes nothing else',
  'In the rendered image every dot of an image, bar, character cell, underline or strike line is mixed into the dot at its own position (left edge of the printable area plus x, y rows down, characters side by side at their own width), rows come into being in paper colour down to the lowest content or feed, what lies right of the printable area is cut off, upside down content is flipped in its own rectangle, and the printable area ends up centred on the paper width. In page mode drawing goes to a separate page only: quarter turns of the print direction turn its content, a larger page area adds blank paper at the right and the bottom, content never enlarges it, printing copies it (turned back to the standard direction) to the current position on the paper and keeps it, and starting page mode empties it. All other dots keep their colour.',
  ['inputs', 'histories'], 'all colours, for a grid of sizes, positions, overlaps, edge cases and page histories',
  'Row strides, cropping and rotation go wrong only for particular sizes and positions; the tests look at no pixel of the result.',
  [RE + 'image_renderer/thermal_image.rs', RE + 'image_renderer/mod.rs'],
  [('canvas', RE + 'image_renderer/thermal_image.rs'), ('image output', RE + 'image_renderer/mod.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis) of the image output with symbolic colours; every colour byte of the result compared as a term with a reference canvas',
  'Sizes and positions come from a fixed grid; the glyph rasterizer (fontdue) is a stand-in; debug overlays are off.')

p('C19', 'Colours mix as their alpha says',
  'Blending a colour into a dot replaces it (and makes it opaque) at alpha 255, leaves it unchanged at alpha 0, and otherwise gives each of red, green and blue the rounded alpha-weighted average of both and keeps the alpha of the dot; multiplying leaves the dot unchanged for a transparent colour and gives each channel the rounded product (over 255) for an opaque one, so that white changes nothing and black gives black. A colour with a new alpha keeps its channels, colours are equal when all four components are, the bytes of an image are red, green, blue, alpha of its dots in order, and the colour numbers 0-3 and 48-51 select the paper colour and colours 1-3 (any other number colour 1).',
  ['inputs'], 'all values of the old and the new channel for every alpha, all colour numbers',
  'A rounding or weighting error shows for few of the 16 million combinations; the tests check none.',
  [PA + 'graphics.rs', PA + 'context.rs'],
  [('colours', PA + 'graphics.rs'), ('colour numbers', PA + 'context.rs')],
  'abstract interpretation of MIR to one term per channel; the term is tabulated over all byte values in 32 bit floats and compared with the reference',
  'Multiplying with a partly transparent colour is left unspecified: no drawing path does it outside the debug overlays.')

p('C20', 'The HTML output shows every printed thing as its own row at its place',
  'Outside page mode every line of text, image and drawing becomes one row of the receipt, in order, of its own height (the tallest span of a line; all bars of a drawing), placed so far below the end of the row before as its y says (never negative), with each piece at its own left position, the bottom padding reaching down to the final position, and the receipt as wide as the paper area: text is shown verbatim (markup and placeholder-like text is only text), on the common baseline and with exactly the classes of its style (bold, italic, underline, strikethrough, stretch, font, upside down, colours other than colour 1 on paper), images are embedded pictures of exactly their dots, bars keep their rectangles relative to the drawing, and an image without dots is an empty row. Page mode content is drawn on the page only - turned, grown, and cut off by the rules of the image output - and printing the page adds one row with a picture of it at the current position. The colour classes of the style sheet carry the render colours, and a renderer used again starts an empty document.',
  ['inputs', 'histories'], 'all positions and colours, every printable character and style, a grid of page histories',
  'Row gaps, escaping, class combinations and page turning go wrong only for particular histories; the tests never look at the document.',
  [RE + 'html_renderer/mod.rs', RE + 'html_renderer/thermal_html.rs'],
  [('html output', RE + 'html_renderer/mod.rs'), ('html pieces', RE + 'html_renderer/thermal_html.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis) of the HTML output on symbolic positions and colours; the resulting document is taken apart and every value compared with the reference',
  'The png and base64 crates are opaque (a picture is the dots handed to the encoder); right padding and the debug overlay are unspecified.')

p('C04', 'No byte stream crashes the decoder or the layout',
  'Whatever bytes arrive - every supported command with any operand values, cut off after any operand byte, with lengths, sizes and counts that do not match the data that follows, after any one setting command, in standard or page mode, with text in any size, justification and place - parsing and processing them from the power-on state up to the calls of the output reaches the end of the stream without a panic: no index or slice out of range, no slice inside a character, no unwrap of a missing value, no division by zero and no arithmetic overflow (overflow checks on).',
  ['inputs', 'histories'], 'all operand values of every command and all cut-off points; a grid of two-command histories, payload sizes and text layouts',
  'Each crash needs one odd operand, length or history; the tests replay well-formed files.',
  [PA + 'parser.rs', PA + 'command.rs', PA + 'context.rs', PA + 'graphics.rs', RE + 'renderer.rs'],
  [('commands', PA + 'commands/'), ('subcommands', PA + 'subcommands/'), ('layout', RE + 'renderer.rs'), ('graphics', PA + 'graphics.rs')],
  'abstract interpretation of MIR (path-sensitive value analysis, branch joining) from the bytes to the output calls; every index, arithmetic operation, unwrap and panic met is an obligation, violated when an input reaches its failure',
  'The barcode and QR encoders are opaque and return at most 2^20 elements; large sizes without data, longer histories and text in an unknown code page are sampled or undecided; what the outputs do with a call is in C18 and C20.')

p('C29', 'The result depends on the bytes and the settings only',
  'The same bytes with the same settings always give the same result: from parsing, layout, the image and HTML outputs and the thermal file functions no clock, environment variable, random source, file, network, process, thread or standard input is reached, no writable global or thread-local state is used, nothing kept for later documents is initialised from the arguments of the first one, nothing enters the result in the order of a hash table, and no address becomes a number. The only effect outside the returned value is debugging output on the console.',
  ['inputs', 'histories'], 'every function of both crates reachable from the entry points, through every implementation of the traits they call',
  'Hidden state and hash order show only across processes or after earlier documents; a test run renders each file once.',
  [RE + 'renderer.rs', PA + 'parser.rs', PA + 'context.rs', RE + 'html_renderer/mod.rs', RE + 'image_renderer/mod.rs'],
  [('entry points', RE + 'renderer.rs'), ('stored graphics', PA + 'context.rs')],
  'call-graph reachability over MIR (trait calls resolved through vtables) to outside sources, writable globals, thread-locals, hash-order iteration and pointer-to-integer casts',
  'Globals initialised once without captured arguments are allowed; what a search through a hash table finds is left to C11. The encoder, font, png and base64 crates are trusted to be pure.')

p('C30', 'A thermal file stands for the bytes it spells, and written files read back',
  'thermal_file::parse_str skips lines that start with \'// and blank lines, and turns every other line into the bytes of its words in order: a constant (NUL ESC HT LF FF CR GS FS DLE CAN) is its control byte, 0x with one or two hexadecimal digits and a decimal number up to 255 are that byte, a quoted string is its UTF-8 text with \\" and \\\\ standing for a quote and a backslash (any other backslash for itself), and every other word, ended by ASCII white space or a quote, is its own characters. Writing the commands parsed from any byte string with cmds_to_thermal and reading the file back with parse_str gives exactly the bytes those commands were parsed from. Neither reading nor writing ever crashes. Left open: words that start with 0x or + but are not such a number, unclosed quotes, and lines of other Unicode white space only.',
  ['inputs'], 'files of several templates with up to three arbitrary characters; written files of all byte strings of C01 and C02',
  'One round trip of one sample file and a handful of literal lines are tested; quotes, escapes, control characters and bytes that are not UTF-8 do not occur in them.',
  [PA + 'thermal_file.rs'],
  [('reader and tokenizer', PA + 'thermal_file.rs: parse_str, parse_tokens'), ('writer', PA + 'thermal_file.rs: cmds_to_thermal, cmd_to_thermal')],
  'abstract interpretation of MIR on character strings with arbitrary characters, compared with a reference reader; composition of writer and reader on symbolic bytes',
  'Bounded string lengths (up to three or four arbitrary characters per file; byte strings as in C01 and C02). Decimal operands of one written command vary in digit count two or three at a time.')

p('C21', 'Outputs never change the printer state they are handed',
  'No method of an output (the image output, the HTML output and the default methods every output shares) writes to the printer state it is handed: not the cursor, the page, the text style, a barcode, code or graphics setting, nor any other field of the Context. So the same bytes are laid out from the same state for every output, and adding an output never changes what a later command does.',
  ['inputs', 'histories'], 'every instruction of every output method and of everything it calls',
  'An output that nudges the cursor, a style or an area for its own purposes changes only what is printed after some later command; the tests compare single documents of single outputs.',
  [RE + 'image_renderer/mod.rs', RE + 'html_renderer/mod.rs', RE + 'renderer.rs'],
  [('image output', RE + 'image_renderer/mod.rs'), ('HTML output', RE + 'html_renderer/mod.rs'), ('default methods', RE + 'renderer.rs')],
  'interprocedural effect analysis on MIR: mutable references to the state tracked through calls, every write through them is a violation',
  'A write that puts the old value back, or saves and restores, would be reported: outputs have no reason to write at all. The interpreter itself (renderer.rs, process_commands) is covered by C05-C17.')

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for (i, t, s, over, q, why, files, mech, tech, note) in sorted(A):
            assert len(t) <= 80, t
            f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=over, text=q), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))) + '\n')
    checks = [dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                   technique=tech, level='proof', level_note=note)
              for (i, t, s, over, q, why, files, mech, tech, note) in sorted(A) if tech]
    na = [dict(property=i, reason=note) for (i, t, s, over, q, why, files, mech, tech, note) in sorted(A) if not tech]
    m = dict(version=1, setup_cmd='python3 sa/dump.py', checks=checks, not_applicable=na,
             notes='Static analysis of the MIR of both crates; no hooks in /repo, nothing of the analysed program is run. See DESIGN.md.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__': main()
