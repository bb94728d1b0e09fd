"""Writes properties.jsonl and MANIFEST.json (python3 tools/props.py)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"


def P(pid, title, statement, over, text, why, files, mech, technique, note):
    return dict(id=pid, title=title, statement=statement, over=over,
                text=text, why=why, files=files, mech=mech,
                technique=technique, note=note)


EMU = ("Assembled from the current source on every run and executed on a "
       "6502 core (py65) with a hand-written model of the Apple IIe switches "
       "and the W5100; those models are trusted.")
REAL = "Runs the repository's own Python code, imported from /repo."

PROPS = [
 P("C01", "Every player opcode makes its exact sound pulse and screen stores",
   "Executing any tick opcode stores its content byte at exactly its four "
   "offsets of its screen page, toggles the speaker twice with exactly the "
   "number of CPU cycles between the toggles that the opcode is named for, "
   "and takes exactly 73 cycles in all. It consumes exactly its own 7 bytes "
   "of the stream, changes no other memory and goes on with the opcode whose "
   "address follows, whatever opcode came before.",
   ["programs", "inputs"],
   "all 1024 opcodes, every value of every operand byte, every ordered pair "
   "of opcodes, all coincidences among the four offsets",
   "No test runs the 6502 player; the 1024 unrolled opcodes are generated by "
   "macros whose cycle counts are only argued in comments.",
   ["player/main.s", "transcoder/opcodes.py"],
   [("tick opcode macros", "player/main.s: op_tick_*"),
    ("opcode address table", "transcoder/opcodes.py: TICK_OPCODES")],
   "explicit-state exploration of the assembled player on a cycle-exact 6502",
   "Exhaustive over opcodes and pairs. " + EMU),
 P("C02", "The player's buffer handling survives every arrival schedule",
   "However the network delivers the stream, the player reads each 2 KB frame "
   "exactly once and in order, never reads bytes that have not arrived, hands "
   "exactly one frame of buffer space back per frame, and shows exactly what "
   "the frames so far say in the right memory bank. A key press pauses "
   "between frames without losing anything and the next one resumes; the "
   "buffer pointer wraps without error.",
   ["schedules", "histories"],
   "every sequence of arrival levels at the points where the player looks, "
   "every key-press schedule, over more frames than the buffer pointer needs "
   "to wrap",
   "There is no test of the player; the refill path runs only against a real "
   "network card, whose timing no test controls.",
   ["player/main.s"],
   [("acknowledge/refill slow path", "player/main.s: op_ack"),
    ("pause", "player/main.s: op_ack keyboard poll")],
   "explicit-state model checking (BFS with full machine-state hashing) of "
   "the assembled player under all arrival and key schedules",
   "Complete machine states are hashed. " + EMU),
 P("C03", "The player starts up correctly or says why not, whatever happens",
   "For every answer of the network card while opening and connecting, the "
   "player either connects to the configured server and plays, or prints the "
   "message for what failed and stops; it never hangs forever on a failed "
   "socket. Once connected it waits for the header, selects the display mode "
   "the header names, clears both screens it uses and starts at the first "
   "opcode, regardless of what memory, registers and the card held before.",
   ["schedules", "inputs", "fault_sequences"],
   "every sequence of socket status answers up to the retry limit, header "
   "arrival levels, several initial memory/register/card contents, both modes",
   "Start-up code has no tests, and failures need a network card that "
   "misbehaves at a chosen moment.",
   ["player/main.s"],
   [("socket open/connect loops", "player/main.s: socket set-up"),
    ("header opcode", "player/main.s: op_header")],
   "explicit-state model checking of the assembled player's start-up under "
   "all network answers",
   "All answers at every status read. " + EMU),
 P("C04", "The end of a stream and RESET always lead back to ProDOS",
   "After the terminating opcode the player keeps the last picture until a "
   "new key is pressed and then quits to ProDOS, "
   "whichever opcode came last. RESET at any instant of start-up or playback "
   "quits as well, and leaves no reset handler behind.",
   ["crash_points", "schedules"],
   "every opcode before the terminator, key-press schedules, RESET at every "
   "instruction boundary of start-up, playback, refill, pause and final wait",
   "No test runs the player, let alone interrupts it at each instruction.",
   ["player/main.s"],
   [("terminate opcode", "player/main.s: op_terminate"),
    ("reset vector", "player/main.s: exit / RESET handler")],
   "exhaustive enumeration of interruption points of the assembled player",
   "Every instruction boundary of one representative run. " + EMU),
 P("C05", "The transcoded stream is framed exactly as the player needs",
   "For any number of opcodes and any size limit the output begins with the "
   "7-byte header, is a whole number of 2 KB frames, carries an acknowledge "
   "opcode in exactly the last four bytes of every complete frame, alternates "
   "the memory bank there in double hi-res, and contains every opcode in order "
   "before one terminator. A size limit ends the stream within one opcode and "
   "one acknowledgement of the limit.",
   ["inputs", "configurations"],
   "every stream length over several frames and every byte limit, both modes; "
   "lengths and limits around 64 KB and 1 MB",
   "Tests check single opcodes' bytes; frame boundaries move with the length "
   "of the whole stream.",
   ["transcoder/movie.py", "transcoder/machine.py", "transcoder/opcodes.py"],
   [("frame padding and acknowledgement", "transcoder/movie.py: emit_stream"),
    ("termination", "transcoder/movie.py: done"),
    ("opcode serialisation", "transcoder/machine.py: emit")],
   "exhaustive enumeration of stream lengths and limits, checked by an "
   "independent decoder",
   "Exhaustive up to the bounds. " + REAL),
 P("C06", "What goes in as video comes out on the Apple's screen",
   "Transcoding a video and playing the file on the player shows, at every "
   "frame boundary, exactly the screen the opcodes describe, and a picture "
   "that stays long enough ends up on screen looking exactly as it was "
   "converted, whatever was shown before it and however briefly.",
   ["programs", "histories"],
   "sequences of up to three still images, with several display times, both "
   "modes",
   "Tests exercise encoder, stream and player (not at all) separately.",
   ["transcoder/main.py", "transcoder/movie.py", "transcoder/video.py",
    "player/main.s"],
   [("encoding loop", "transcoder/movie.py: encode"),
    ("main program", "transcoder/main.py: main"),
    ("player", "player/main.s")],
   "exhaustive enumeration of short image histories through transcoder and "
   "emulated player",
   "End to end: real main program, assembled player. " + EMU),
 P("C07", "Picture and sound keep step, whatever the rates",
   "One opcode is sent per audio sample, and the encoder begins drawing input "
   "frame k when the audio has reached time k divided by the frame rate, to "
   "within a sample, without drift, skipping all but every n-th frame if "
   "asked to. A sound heard at some time in the input is played at that time "
   "of the stream, whatever the input's sample rate and channels and however "
   "the decoder cuts it into blocks. The stream ends when either the audio or "
   "the video ends.",
   ["configurations", "histories"],
   "all combinations of common frame rates, audio rates, frame skipping and "
   "modes; video shorter, equal and longer than the audio; hours of samples "
   "for the frame clock; clicks in sounds of all common input rates, cut into "
   "blocks of many sizes",
   "The tests check the frame clock at a few ticks only; nothing tests the "
   "multiplexer.",
   ["transcoder/movie.py", "transcoder/video.py",
    "transcoder/frame_grabber.py"],
   [("frame clock", "transcoder/video.py: tick"),
    ("multiplexing loop", "transcoder/movie.py: encode"),
    ("frame rate", "transcoder/frame_grabber.py: FileFrameGrabber")],
   "exhaustive enumeration of rate configurations through the real "
   "transcoder, against an exact rational schedule",
   "Frames are recognised in the produced opcodes. " + REAL),
 P("C08", "Every sound sample becomes one speaker pulse of the right width",
   "Each audio sample at the output rate yields exactly one pulse, in order, "
   "of 34 cycles plus two per step of deflection, where the deflection is the "
   "mono sample times the normalization, rounded to within one step and "
   "clipped to 4..66 cycles; silence is always 34. Automatic normalization "
   "uses the full range and clips fewer than about 1% of the samples of the "
   "first ten megabytes of sound; an "
   "explicit one is used as given. This holds for any number of channels, "
   "for sound of any length, none included, and however the decoder cuts it "
   "into blocks.",
   ["inputs", "configurations"],
   "all 65536 sample values at several normalizations, pairs of channel "
   "levels, lengths around the block size, all amplitudes, soft beginnings of "
   "all lengths up to minutes, all small shares "
   "of peaks, other input rates, one to eight channels in blocks of all small "
   "sizes",
   "There are no audio tests.",
   ["transcoder/audio.py", "transcoder/movie.py"],
   [("decoding and normalization", "transcoder/audio.py: Audio"),
    ("pulse width", "transcoder/movie.py: encode")],
   "exhaustive enumeration of sample values and sound shapes through the "
   "real transcoder",
   "librosa's resampler is trusted beyond length and coarse shape. " + REAL),
 P("C09", "The encoder stores only to visible screen bytes",
   "Every opcode the encoder produces, padding included, is addressed to the "
   "8 KB screen page and each of its four offsets is a visible byte, never a "
   "screen hole, whatever the converted images contain in the holes. In "
   "double hi-res no stored byte has bit 7 set if no image byte has.",
   ["histories", "inputs"],
   "all histories of short encodings over a set of images interrupted "
   "anywhere, and long ones over busy images, with garbage in the holes",
   "Assertions in the code see only the stores of runs a test makes; the "
   "encoder has no end-to-end tests.",
   ["transcoder/video.py", "transcoder/screen.py"],
   [("hole mask", "transcoder/screen.py: SCREEN_HOLES"),
    ("store selection", "transcoder/video.py: _index_changes")],
   "explicit-state exploration of encoder histories with state hashing",
   "Bounded histories over small images plus fixed long ones. " + REAL),
 P("C10", "The encoder always knows exactly what is on the player's screen",
   "After any prefix of the opcode stream, the screen memory the encoder "
   "believes the player to have equals the memory a player has that executed "
   "those opcodes, in both memory banks, including padding, new frames at any "
   "moment and bank switches at any moment.",
   ["histories"],
   "all histories of short encodings over a set of images, each interrupted "
   "after every number of opcodes, and long ones over busy images",
   "Tests compare single steps of the encoder; divergence needs a sequence "
   "of interrupted frames.",
   ["transcoder/video.py", "transcoder/screen.py"],
   [("applying stores", "transcoder/video.py: _index_changes"),
    ("memory update", "transcoder/screen.py: apply")],
   "explicit-state exploration of encoder histories against a player model",
   "The player model (four stores) is what C01 shows of the real one. "
   + REAL),
 P("C11", "Given time, the screen shows exactly what it should",
   "If the target picture stops changing, the encoder reaches, after finitely "
   "many opcodes, a screen that looks exactly like the target on the real "
   "display hardware in the chosen palette, from any previous screen and "
   "wherever earlier frames were cut off.",
   ["histories", "inputs"],
   "all pairs of old/new neighbouring bytes over a value alphabet at several "
   "columns, and all interrupted pairs of small images",
   "Convergence is only asserted in commented-out code; it depends on "
   "histories of partial updates.",
   ["transcoder/video.py", "transcoder/screen.py"],
   [("pending errors", "transcoder/video.py: update_priority"),
    ("visible difference", "transcoder/screen.py: diff_weights")],
   "exhaustive enumeration of byte neighbourhood transitions, run to a fixed "
   "point and rendered by an independent display model",
   "One known finding (left edge of a line). " + REAL),
 P("C12", "Every opcode is spent on visible error it can best reduce",
   "While a visible error is pending in the current bank, every opcode "
   "repairs one pending byte exactly, starting with those that have been "
   "worst, and uses its other stores for distinct pending bytes of the same "
   "page that the same value improves, best first. The encoder pads only when "
   "nothing is pending, and no extra store makes its byte look worse.",
   ["histories", "inputs"],
   "all histories of short encodings over a set of images, and busy images",
   "Tests check single helper functions; the choice depends on the "
   "accumulated history of errors.",
   ["transcoder/video.py", "transcoder/screen.py"],
   [("priority queue", "transcoder/video.py: _index_changes"),
    ("extra stores", "transcoder/video.py: _compute_error")],
   "explicit-state exploration of encoder histories against a reference of "
   "pending errors",
   REAL),
 P("C13", "Bookkeeping after any sequence of stores equals a fresh start",
   "After any sequence of single-byte stores to either bank, the picture "
   "representation the encoder maintains incrementally is identical to one "
   "built from scratch from the resulting screen memory, in both modes.",
   ["histories", "inputs"],
   "every offset, bank and value on several backgrounds; ordered pairs of "
   "stores to neighbours; all small encoder histories",
   "Tests apply a handful of stores to a blank screen.",
   ["transcoder/screen.py"],
   [("incremental update", "transcoder/screen.py: apply"),
    ("neighbour fix-up", "transcoder/screen.py: _fix_scalar_neighbours")],
   "exhaustive enumeration of stores and store pairs, compared with "
   "reconstruction",
   REAL),
 P("C14", "The transcoder's picture of the screen is the hardware's",
   "For every combination of neighbouring screen bytes, the dots and colours "
   "the transcoder computes are those the Apple's video hardware displays: "
   "dot order, half-dot shift of bit 7 and its effect on the neighbour, "
   "interleaving of the banks, and the colour of each dot by its position.",
   ["inputs"],
   "all neighbourhood values of every byte position in both modes; all pairs "
   "of bytes",
   "Tests check a few dozen hand-picked values out of 2^14.",
   ["transcoder/screen.py", "transcoder/colours.py"],
   [("packing", "transcoder/screen.py: _pack"),
    ("dots", "transcoder/screen.py: to_dots"),
    ("colours", "transcoder/colours.py: "
     "dots_to_nominal_colour_pixel_values")],
   "exhaustive enumeration of the state of a neighbourhood against an "
   "independent display model",
   "Exhaustive. " + REAL),
 P("C15", "Screen geometry and memory representations are exact",
   "Line and column of every byte of both display pages map to the address "
   "the hardware uses, holes are exactly the bytes never displayed, and both "
   "memory representations convert into each other without loss. A write "
   "changes exactly the byte written, and a write to an address outside the "
   "flat representation's page is refused.",
   ["inputs", "histories"],
   "all lines, columns and addresses of both pages; every single write "
   "followed by chains of conversions",
   "Tests look at a few addresses.",
   ["transcoder/screen.py"],
   [("address tables", "transcoder/screen.py: y_to_base_addr, "
     "_populate_mappings"),
    ("representations", "transcoder/screen.py: FlatMemoryMap, MemoryMap")],
   "exhaustive enumeration of addresses and conversion chains",
   "Exhaustive. " + REAL),
 P("C16", "The error measures the encoder steers by are the right ones",
   "For any two screens, the error attributed to each byte is the tabulated "
   "distance between the two neighbourhoods around that byte and zero exactly "
   "when they look the same; the error left by storing a value at a byte and "
   "the gain of storing it at each offset of a page are those of the screen "
   "that results.",
   ["inputs"],
   "every byte value against every byte value in every column class and bank, "
   "with varied neighbours",
   "Tests use a few constructed pages.",
   ["transcoder/screen.py"],
   [("errors", "transcoder/screen.py: diff_weights"),
    ("single stores", "transcoder/screen.py: byte_pair_difference"),
    ("gain over a page", "transcoder/screen.py: compute_delta_page")],
   "exhaustive enumeration of byte transitions against a reference metric",
   REAL),
 P("C17", "Edit distance tables say how different two pictures look",
   "The distance between two runs of coloured dots is the cheapest way to "
   "turn one into the other by recolouring dots at their perceptual colour "
   "difference or swapping neighbours, and the generated tables, loaded back "
   "in any order, hold exactly that, symmetrically, for every pair of "
   "neighbourhoods and each palette and mode. The colours are those that "
   "bmp2dhr converts with under the palette's number.",
   ["inputs", "configurations", "histories"],
   "all colour pairs of all palettes; all pairs of short dot runs; complete "
   "tables at reduced width; full-width tables; all orders of loading",
   "Tests compute a few distances; the tables take hours to generate and are "
   "never compared.",
   ["transcoder/make_data_tables.py", "transcoder/screen.py",
    "transcoder/palette.py", "transcoder/colours.py"],
   [("colour costs", "transcoder/make_data_tables.py: "
     "compute_substitute_costs"),
    ("table generation", "transcoder/make_data_tables.py: "
     "compute_edit_distance, make_edit_distance"),
    ("loading", "transcoder/screen.py: edit_distances")],
   "exhaustive enumeration at reduced width of generator, file and loader, "
   "against an independent distance",
   "Full-width hi-res tables are compared on a fixed sample only; one known "
   "finding. " + REAL),
 P("C18", "Converted frames arrive once each, in order, or the failure shows",
   "Under every interleaving of the background converter and the consumer, "
   "the consumer receives every frame of the input exactly once and in order, "
   "for videos of any length, each made from the whole picture scaled to 280 "
   "by 192 dots, and a delivered frame never changes afterwards. "
   "If reading or converting a frame fails, the consumer gets an error after "
   "the frames before it, never a wrong frame and never an endless wait; a "
   "consumer that stops early can still end the program.",
   ["schedules", "fault_sequences"],
   "all interleavings for videos up to and beyond the queue's capacity, both "
   "modes, early stops, a failure at every step; some hundred frames on a few "
   "schedules",
   "There is no test of the threads; tests run one schedule at best.",
   ["transcoder/frame_grabber.py"],
   [("bounded queue and worker thread", "transcoder/frame_grabber.py: "
     "frames"),
    ("end and error markers", "transcoder/frame_grabber.py: worker")],
   "stateless model checking of the real threads under a controlled "
   "scheduler, with state pruning",
   "Threads interact only through threading/queue objects and files. " + REAL),
 P("C19", "Frames left by earlier runs never spoil a later one",
   "Whatever earlier runs for the same unchanged input left behind, "
   "including runs killed at any moment and image files cut short or missing, "
   "a complete run delivers exactly the right frames for its own mode and "
   "palette.",
   ["crash_points", "histories"],
   "a kill at every file operation, conversions stopped after any part of "
   "their output, pairs of kills, pairs of damaged files, sequences of runs "
   "in all modes and palettes",
   "No test creates frames at all.",
   ["transcoder/frame_grabber.py"],
   [("reuse of converted frames", "transcoder/frame_grabber.py: _is_cached"),
    ("conversion", "transcoder/frame_grabber.py: _hgr_decode, "
     "_dhgr_decode")],
   "exhaustive crash-point and torn-file enumeration with recovery on the "
   "real code",
   "A file of full length is taken to have its full content. " + REAL),
 P("C20", "The transcoder writes next to its input and nowhere else",
   "For any input name, transcoding creates only a directory of converted "
   "frames in the input's directory and one stream file, named as the input "
   "with the suffix replaced by .a2m or as asked for; it never changes the "
   "input or any other file. Different inputs, modes and palettes keep their "
   "converted frames apart.",
   ["inputs", "configurations"],
   "all input names up to a length over letters, dots and slashes, relative "
   "and absolute, with and without an explicit output; names with each "
   "printable character",
   "The tests check three well-formed names.",
   ["transcoder/main.py", "transcoder/frame_grabber.py"],
   [("frame directory", "transcoder/frame_grabber.py: _output_dir"),
    ("output name", "transcoder/main.py: main")],
   "exhaustive enumeration of input names through the real main program in a "
   "scratch tree",
   "One known finding (same name, different suffix). " + REAL),
 P("C21", "Every client that listens gets the whole stream, byte for byte",
   "The server sends each client that connects and reads exactly the bytes "
   "the file has at that time and then ends the connection, whatever other clients did before or "
   "do meanwhile: disconnecting, resetting in the middle, sending data, "
   "reading slowly. It keeps serving after a client's or file's failure and "
   "can be restarted on its port at once.",
   ["histories", "schedules", "fault_sequences"],
   "all histories of client behaviours up to a length, all interleavings of "
   "the steps of concurrent clients, several file sizes, the file missing for "
   "a while or replaced between clients, restarts with connections in every "
   "state, hundreds of clients of one kind in a row",
   "The server has no tests.",
   ["server/server.py"],
   [("handler", "server/server.py: ChunkHandler"),
    ("port reuse", "server/server.py: main")],
   "exhaustive enumeration of client histories and interleavings against the "
   "real server",
   "Real server process on the loopback network. " + REAL),
 P("C22", "The simulator's I/O page behaves as documented, or refuses",
   "In the simulator every documented soft switch is worked by exactly its "
   "own addresses in the documented way (read or write), its status address "
   "reads bit 7 accordingly after any history, and switches do not influence "
   "one another. Any other access to the I/O page stops the simulation with "
   "an error naming the address and, if it names one, the right kind of "
   "access.",
   ["histories", "inputs"],
   "every access with every value to all 256 I/O addresses; all histories of "
   "accesses up to a depth per switch and pair of switches",
   "The simulator has no tests.",
   ["simulator/apple2.py", "simulator/machine.py"],
   [("I/O dispatch", "simulator/machine.py: io_interceptor"),
    ("soft switches", "simulator/machine.py: SoftSwitch"),
    ("I/O map", "simulator/apple2.py: AppleII")],
   "exhaustive enumeration of access histories against a reference model",
   REAL),
 P("C23", "The simulator catches stray writes and stray jumps",
   "In the simulator a write to ROM, slot ROM or the unused hi-res page is "
   "denied and changes nothing, and a write to RAM takes effect. Entering "
   "another memory region other than by a return or at a declared entry point "
   "is stopped, within a region nothing is; ROM images are loaded whole.",
   ["inputs", "programs"],
   "all 65536 addresses written with several values, entered from every "
   "region by jump and by return, and called by a program",
   "The simulator has no tests.",
   ["simulator/memory.py", "simulator/apple2.py", "simulator/simulator.py"],
   [("regions", "simulator/memory.py: MemoryManager"),
    ("memory map", "simulator/apple2.py: AppleII"),
    ("start-up", "simulator/simulator.py: main")],
   "exhaustive enumeration of addresses, jumps and calls against a reference "
   "memory map",
   REAL),
 P("C24", "The simulated network card's ports behave like the chip's",
   "The address ports set the 15-bit pointer from any bytes in any order, the "
   "data port reads and writes the byte pointed at, and the pointer moves on "
   "after each data access exactly if auto-increment is on, wrapping at the "
   "end of the transmit and receive buffers. Opening and connecting a socket "
   "lead to the documented status.",
   ["histories", "inputs"],
   "every pointer value in every mode; all histories of port operations up to "
   "a depth; whole-buffer transfers",
   "The simulator has no tests.",
   ["simulator/uthernet.py", "simulator/apple2.py"],
   [("pointer", "simulator/uthernet.py: read_data, write_data"),
    ("ports", "simulator/apple2.py: AppleII")],
   "exhaustive enumeration of port operation histories against a reference "
   "model",
   REAL),
 P("C25", "Opcodes go to the player's routines, in every build of the player",
   "For any build of the player and its debug information, wherever the linker "
   "placed the code and in whatever order the symbols are listed, each opcode "
   "in the stream is sent as the address of exactly the player's routine of "
   "its name, high byte first, followed by its operands. A player without one "
   "of the opcodes is refused with an error instead of being sent wrong "
   "addresses.",
   ["inputs", "programs"],
   "all 1028 opcodes in several builds with the code at different places and "
   "several orders and contents of the debug information, each opcode missing "
   "in turn",
   "Tests parse three lines and never look at an opcode's address.",
   ["transcoder/opcodes.py", "transcoder/symbol_table.py", "player/main.s"],
   [("addresses", "transcoder/opcodes.py: _fill_opcode_addresses"),
    ("debug information", "transcoder/symbol_table.py: SymbolTable.parse")],
   "exhaustive enumeration of all opcodes over builds and debug files, "
   "executed in each build on the emulator",
   REAL),
 P("C26", "Each transcoder option does what it says, whatever the others are",
   "Each command line option has the effect its description states whatever "
   "the other options are, and one left out has its default: double hi-res, "
   "NTSC colours for conversion and for error measures, every second video "
   "frame, 14700 samples per second, automatic normalization, no size limit, "
   "output next to the input.",
   ["configurations"],
   "every combination of every option left out or given with one or two "
   "values; unusual values in every pair of options",
   "Tests never run the main program or the movie encoder.",
   ["transcoder/main.py", "transcoder/movie.py"],
   [("options", "transcoder/main.py: parser, main"),
    ("use", "transcoder/movie.py: Movie")],
   "exhaustive enumeration of option combinations through the real command "
   "line against the options' descriptions",
   REAL),
 P("C27", "A frame change sounds like two silent samples and keeps time",
   "While data is waiting, the player starts a speaker pulse exactly every 73 "
   "cycles from the first sample to the last: passing from one 2 KB frame to "
   "the next takes two periods and sounds as two silent pulses of 34 cycles, "
   "whatever opcodes come before and after, whichever memory bank follows, "
   "wherever the buffer pointer is and however much data waits.",
   ["programs", "inputs"],
   "all 1024 opcodes before and after a frame change, all pairs of sounds, "
   "both modes, every slot of the receive buffer, several fill levels",
   "There is no test of the player; a cycle lost per frame change is heard "
   "only as a whine.",
   ["player/main.s"],
   [("slow path", "player/main.s: op_ack, checkrecv, recv, op_nop")],
   "exhaustive enumeration of frame changes in the real binary on the "
   "emulator, every speaker toggle of the run placed on the clock",
   EMU),
 P("C28", "An interrupted generation of the distance tables does no harm",
   "Whenever the generation of the edit distance tables is killed, each table "
   "is afterwards either exactly right or refused with an error when the "
   "transcoder asks for it, never used half-written; and generating again to "
   "the end, whatever earlier runs left, makes every table right.",
   ["crash_points", "histories"],
   "kills before every file operation and inside every write, pairs of kills, "
   "starting from nothing, an empty directory and a complete set",
   "Tests compute single distances and never write or load a table.",
   ["transcoder/make_data_tables.py", "transcoder/screen.py"],
   [("generation", "transcoder/make_data_tables.py: main, make_edit_distance"),
    ("loading", "transcoder/screen.py: Bitmap.edit_distances")],
   "exhaustive crash-point enumeration of the real generator on small bitmap "
   "classes, with the real loader and a rerun after every kill",
   REAL),
 P("C29", "The simulator runs a program as the processor does",
   "A program run by the simulator has each of its instructions executed once "
   "and in order, with the processor's registers, flags, writes to memory, "
   "accesses to the I/O page and cycle count, whether traced or not. The run "
   "ends exactly at an instruction that jumps to itself; a write, access or "
   "entry that is refused stops it there, with nothing executed after it.",
   ["programs"],
   "all programs of a few instructions from an alphabet of 34, all "
   "instructions under all flags, loops, crossings of every region boundary "
   "in every way, each traced and not",
   "There is no test of the simulator.",
   ["simulator/apple2.py", "simulator/memory.py"],
   [("run loop", "simulator/apple2.py: AppleII.Run"),
    ("region checks", "simulator/memory.py: MemoryManager")],
   "exhaustive enumeration of short programs, run by the real simulator and "
   "by a bare processor under the specified memory rules, compared access by "
   "access",
   REAL),
 P("C30", "Transcoding holds only a bounded part of its input",
   "However long the video, pictures are read at most 64 ahead of the one "
   "that is due, under every schedule of the converter thread; sound is "
   "decoded at most four megabytes ahead of the sample being encoded, apart "
   "from one look at its first ten megabytes to find its level; and what has been "
   "encoded is written to the output file at most half a megabyte later.",
   ["schedules", "inputs"],
   "videos many times longer than the bounds, under the schedules in which "
   "the converter always, never or by turns of every length goes first; sound "
   "delivered in small and large pieces; every read and block checked",
   "No test transcodes anything; with short inputs everything fits.",
   ["transcoder/frame_grabber.py", "transcoder/audio.py",
    "transcoder/movie.py", "transcoder/main.py"],
   [("bounded queue", "transcoder/frame_grabber.py: frames"),
    ("block-wise decoding", "transcoder/audio.py: audio_stream"),
    ("streaming output", "transcoder/main.py: main")],
   "the real converter and player of pictures run under a controlled "
   "scheduler with the extremal schedules of each input of a bounded set, "
   "each read placed against the stream written so far",
   REAL),
 P("C31", "A failed transcoding is reported, never passed off as complete",
   "Whatever fails while transcoding and whenever (probing or opening the "
   "video, reading or converting a picture, opening or decoding the sound, "
   "writing the stream), the program ends with an error, and what it leaves "
   "does not end like a complete stream unless only writing failed. A run "
   "that ends without an error made every pulse and picture of an "
   "undisturbed one.",
   ["fault_sequences", "inputs"],
   "a failure of every kind at every point where the program takes something "
   "in, and of writing at many sizes of the stream, for both modes and "
   "several sets of options",
   "No test makes anything fail; there are hundreds of points of failure.",
   ["transcoder/main.py", "transcoder/movie.py", "transcoder/audio.py",
    "transcoder/frame_grabber.py"],
   [("end of the input", "transcoder/movie.py: encode, emit_stream"),
    ("errors of the worker", "transcoder/frame_grabber.py: frames")],
   "exhaustive fault injection: the real main program run once for every "
   "kind of failure at every point of failure",
   REAL),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(
                    files=p["files"],
                    mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                    hook_needed=None))) + "\n")
    checks = [dict(
        property=p["id"], quick_cmd="./check.sh " + p["id"],
        thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"],
        technique="model checking: " + p["technique"], level=MC,
        level_note=p["note"]) for p in PROPS]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(
            version=1, setup_cmd="./setup.sh", checks=checks,
            not_applicable=[],
            notes="No hooks in /repo are needed; see DESIGN.md."), f,
            indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
