"""developer tool: writes properties.jsonl"""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state], 'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': list(observe), 'hook_needed': None}})
SS, SA, AW, UT = 'ArcWelder/segmented_shape.cpp', 'ArcWelder/segmented_arc.cpp', 'ArcWelder/arc_welder.cpp', 'GcodeProcessorLib/utilities.cpp'
GP, GA = 'GcodeProcessorLib/gcode_position.cpp', 'GcodeProcessorLib/gcode_parser.cpp'
prop('C01', 'An arc never strays from the toolpath by more than half the resolution',
 'When the welder replaces a run of moves by an arc, every original vertex and, on every original segment, the point of that segment closest to the arc centre lie within half of the configured resolution of the arc\'s circle. With 3D arcs off, no arc replaces moves whose Z differs (by 0.00001 mm or more).',
 ['inputs', 'configurations'], 'all point runs, resolutions, maximum radii and 3D settings', 'tests only feed a few G-code files; the deviation must be bounded for every run of points', [SS, SA, UT],
 [('circle::is_over_deviation', SS), ('circle::try_create_circle', SS), ('utilities::get_closest_perpendicular_point', UT), ('utilities::get_cartesian_distance', UT)])
prop('C02', 'An emitted arc is geometrically the path it replaces',
 'An arc that is accepted starts at the first and ends at the last point of the run it replaces, both of which lie on its circle, and has a radius not above the configured maximum. It turns in the direction in which the path passes from the first point through the middle point to the last (only when the length of that arc does not agree with the path may it be the complementary arc, and then the length of that one agrees), and the arc length differs from the length of the path by at most the configured tolerance. The G-code emitted for it is G2 exactly when it turns clockwise and G3 otherwise, with X/Y (and Z for 3D arcs) the end point and I/J the centre relative to the start.',
 ['inputs', 'configurations'], 'all point runs and option values', 'the sweep direction, flip and angle code has many sign cases, tests run none of them in isolation', [SS, SA],
 [('arc::try_create_arc', SS), ('arc::are_points_within_slice', SS), ('circle::try_create_circle', SS), ('segmented_arc::get_shape_gcode', SA)])
prop('C03', 'Arcs extrude exactly what the replaced moves extruded',
 'The extrusion of an emitted arc equals the sum of the extrusions of exactly the moves it replaces (relative mode), or its absolute E word equals the extruder position after the last of them (absolute mode); travel arcs carry no E word. Rejected or removed points contribute nothing, whatever the history of additions, removals and failed attempts.',
 ['inputs', 'histories'], 'all histories of points added, rejected, popped and shapes restarted', 'the totals are maintained incrementally with undo and recursion; tests exercise a couple of histories', [SA, SS, AW],
 [('segmented_arc::try_add_point', SA), ('segmented_arc::try_add_point_internal_', SA), ('segmented_arc::pop_front', SA), ('segmented_arc::get_shape_gcode', SA)],
 [('e_relative_', 'extrusion accumulated by the current run', 'segmented_shape.h'), ('original_shape_length_', 'path length of the current run', 'segmented_shape.h')])
prop('C04', 'Only moves an arc can stand for are welded together',
 'A move is only merged into an arc if it is a G0/G1 with known positions in absolute XYZ mode, and the run it joins keeps the same offsets, extruder axis mode, feedrate, feature tag, Z (unless 3D arcs) and kind of move (travel, extrusion or retraction). Travel moves are merged only when travel arcs are enabled, and an extruding move whose extrusion rate differs from that of the move before it by more than the configured variance is not merged into that move\'s arc.',
 ['inputs', 'histories', 'configurations'], 'all command histories and option values', 'the rule is a conjunction of many conditions over two machine states; each missing condition shows only for specific command pairs', [AW, SA],
 [('arc_welder::process_gcode', AW), ('segmented_arc::try_add_point', SA)])
prop('C05', 'Everything that is not welded is passed through verbatim and in order',
 'Every command that is not replaced by an arc appears in the output exactly as its original text with its comment, in the original order, and arcs appear at the place of the moves they replace. No command is duplicated, dropped or reordered; an UltiGCode or PrusaSlicer first line stays the first line, and only comment and blank lines are added by the header. The only lines that may vanish are blank lines between or right after the welded moves of one arc.',
 ['inputs', 'histories'], 'all command sequences, including comment-only and empty lines between welded moves', 'needs arbitrary interleavings of weldable moves and other lines', [AW, 'ArcWelder/unwritten_command.h'],
 [('arc_welder::process_gcode', AW), ('arc_welder::write_unwritten_gcodes_to_file', AW), ('arc_welder::write_arc_gcodes', AW), ('unwritten_command::to_string', 'ArcWelder/unwritten_command.h')])
prop('C06', 'Each arc absorbs exactly the moves it was built from',
 'When an arc of n points is written, exactly the n-1 moves of that arc are taken out of the pending output and every pending command before them is written first; the tracked machine position afterwards is that of the last absorbed move, and the move that ended the arc is processed again from that position. Pending commands and arc points never go out of step.',
 ['inputs', 'histories'], 'all histories of accepted and rejected points', 'off-by-one errors show only for particular sequences of pops and retries', [AW, SA],
 [('arc_welder::process_gcode', AW), ('arc_welder::write_arc_gcodes', AW), ('gcode_position::undo_update', GP)])
prop('C07', 'array_list is a growable double-ended sequence',
 'For every sequence of operations on an array_list, its contents, count, order and returned elements equal those of an ideal double-ended sequence, including after wrap-around, growth, explicit resize to at least its count and copy from or to a list in any internal rotation. Popping an empty list and pushing on a full fixed-size list throw and leave the list unchanged; no operation touches memory outside its storage.',
 ['inputs', 'histories'], 'all operation sequences, element values, capacities and internal rotations', 'the tests do not touch the container directly', ['GcodeProcessorLib/array_list.h'],
 [('array_list<T> methods', 'GcodeProcessorLib/array_list.h')], [('items_, front_index_, count_, max_size_', 'rotated storage', 'GcodeProcessorLib/array_list.h')])
prop('C08', 'circular_buffer is a bounded sequence that drops the oldest element',
 'For every sequence of operations on a circular_buffer, its contents, count, order and returned elements equal those of an ideal bounded sequence in which a push onto a full buffer drops the element at the opposite end. This includes wrap-around, both resizes, initialize and copy from or to a buffer in any internal rotation; popping an empty buffer throws and leaves it unchanged, and no operation touches memory outside its storage.',
 ['inputs', 'histories'], 'all operation sequences, element values, capacities and internal rotations', 'the tests do not touch the container directly', ['GcodeProcessorLib/circular_buffer.h'],
 [('circular_buffer<T> methods', 'GcodeProcessorLib/circular_buffer.h')], [('items_, front_index_, count_, max_size_', 'rotated storage', 'GcodeProcessorLib/circular_buffer.h')])
prop('C09', 'The tracked machine position follows the commands',
 'After every command the tracked state equals what a printer with these offsets would hold: moves change only the axes they name (adding in relative mode, replacing in absolute mode, keeping the given units), G92 shifts only the offsets of the axes it names (all if none), G28 homes the axes it names (all if none), G10/M218 set only the offsets of the tool they name, T selects the tool, and G90/G91/M82/M83 change only their modes; any other command changes no coordinate, offset, mode or tool. Undoing a command restores the previous state exactly.',
 ['inputs', 'histories'], 'all commands, parameters and prior states', 'tests replay one or two files; the state transition must be right from every state', [GP, 'GcodeProcessorLib/position.cpp'],
 [('gcode_position::update and process_*', GP), ('gcode_position::update_position', GP)])
prop('C10', 'Tool and extruder indexes always stay in range',
 'With at least one extruder configured, whatever tool number a command names (T, M218, M563, M207/M208, G10/G11 or any other), the extruder the tracker uses is one of the configured ones (the nearest to the number named), so no access falls outside the per-extruder storage and no other extruder\'s state changes.',
 ['inputs', 'histories', 'configurations'], 'all tool numbers, configurations and command histories', 'out-of-range tool numbers are unusual inputs the tests never use', [GP, 'GcodeProcessorLib/extruder.cpp', 'GcodeProcessorLib/position.cpp'],
 [('gcode_position::process_t', GP), ('position::get_current_extruder', 'GcodeProcessorLib/position.cpp')])
prop('C11', 'Numbers in G-code decode to their written value',
 'For every text, a number the parser reads equals the decimal value written there (sign, integer digits, fraction digits, embedded blanks skipped; up to floating-point rounding, tool numbers below 2^32), the text consumed ends right after it, a text without a digit is refused, and nothing past the terminating NUL is read. A parameter of a command is the letter written, in capitals, with the number behind it.',
 ['inputs'], 'all NUL-terminated texts', 'tests sample one parse', [GA], [('gcode_parser::try_extract_double', GA), ('gcode_parser::try_extract_unsigned_long', GA)])
prop('C12', 'Parsing keeps the line\'s text and comment',
 'For every input line, the text before the first semicolon is kept as the command text and the text after it, without line breaks, as the comment, so command text plus comment (behind a semicolon, if there is any) reproduce the line. The command name is the one written at the start of the line, and a line is only taken for empty if it has nothing printable before the semicolon. No byte past the terminating NUL is read.',
 ['inputs'], 'all lines', 'tests parse a single fixed line', [GA, 'GcodeProcessorLib/parsed_command.cpp'], [('gcode_parser::try_parse_gcode', GA), ('parsed_command::to_string', 'GcodeProcessorLib/parsed_command.cpp')])
prop('C13', 'Printed numbers are the value rounded to the requested precision',
 'The text of a nonzero finite number is a minus sign exactly when it is negative, the integer digits without superfluous leading zeros, and - for a precision above 0 - a point with exactly that many decimals; it denotes the number (its shortest decimal form) rounded to that many decimals, off by at most half a unit of the last place; 0 is printed as 0. For every precision the text is complete and nothing is written outside of its buffer.',
 ['inputs'], 'all finite doubles and all precisions 0 to 255', 'existing tests sample random values and compare within tolerance only; carries over nines, long texts and large exponents are not sampled', ['GcodeProcessorLib/fpconv.cpp', UT], [('fpconv_dtos', 'GcodeProcessorLib/fpconv.cpp'), ('utilities::dtos', UT)])
prop('C14', 'Emitted arc commands respect the configured maximum length',
 'When a maximum G-code length is configured, the text of every emitted arc command, excluding comments, is at most that long; when it is zero, no arc is refused for its length.',
 ['inputs', 'histories', 'configurations'], 'all runs, precisions and lengths', 'the length is estimated before the text exists; mismatches need specific magnitudes', [SA], [('segmented_arc::get_shape_gcode_length', SA), ('utilities::get_num_digits', UT)])
prop('C15', 'ArcStraightener reproduces the arc it interpolates',
 'Every segment run produced for a G2/G3 ends exactly at the commanded end point, its intermediate points lie on the arc\'s circle between the two angles, Z and E advance monotonically and linearly, and E totals the commanded extrusion. Lines that are not arcs are copied unchanged.',
 ['inputs', 'configurations'], 'all arcs and interpolation settings', 'no test runs the straightener', ['ArcWelderInverseProcessor/marlin_2.cpp', 'ArcWelderInverseProcessor/arc_interpolation.cpp'], [('marlin_2::interpolate_arc', 'ArcWelderInverseProcessor/marlin_2.cpp')])
prop('C16', 'A failed or cancelled run never loses the source file',
 'The source file is only removed or replaced after the complete output has been produced; if processing fails or is cancelled through the progress callback, the source file keeps its contents, also when source and target are the same file.',
 ['histories', 'fault_sequences', 'configurations'], 'all points at which processing is cancelled or a file cannot be opened', 'tests never cancel and never overwrite in place', [AW], [('arc_welder::process', AW)])
prop('C17', 'Reported statistics agree with the output',
 'The number of arcs reported equals the arc commands written by the welder, the points compressed equal the moves they replaced, and the source and target segment statistics count each extruding, retracting or (with travel arcs on) travelling move with a change in X or Y once, with its length (for G2/G3 in I/J form the arc length).',
 ['inputs', 'histories'], 'all command histories', 'counts are kept apart from the writing; tests do not compare them', [AW, 'ArcWelder/arc_welder.h'], [('arc_welder::process_gcode', AW), ('segment_statistics::update', 'ArcWelder/arc_welder.h')])
prop('C18', 'Firmware compensation refuses exactly the arcs that would be drawn too coarsely',
 'With firmware compensation enabled (min-arc-segments and mm-per-arc-segment both above 0), every arc written is either one whose full circle the printer draws with at least min-arc-segments segments of mm-per-arc-segment, or one whose replaced path is no longer than that circle divided by min-arc-segments; an arc for which one of the two holds is not refused (nor counted as refused) for firmware compensation. With either setting at 0, no arc is refused for it.',
 ['inputs', 'histories', 'configurations'], 'all runs of points and mm-per-arc-segment / min-arc-segments settings', 'no test enables compensation', [SA, AW], [('segmented_arc::try_add_point_internal_', SA), ('segmented_arc::segmented_arc', SA)], [('num_firmware_compensations_', 'arcs refused for their coarseness', 'segmented_arc.h')])
open('properties.jsonl', 'w').write('\n'.join(json.dumps(p) for p in P) + '\n')
