"""property id -> proof units, bounded stand-in, assumptions"""
def _c(*names):
    """'module.LIST' or 'module.function' -> list of proof units"""
    def f():
        import importlib
        r = []
        for n in names:
            m, a = n.split('.'); x = getattr(importlib.import_module(m), a)
            r += [y for y in (x if isinstance(x, list) else [x]) if y not in r]
        return r
    return f
WELD = 'whole program runs of the real welder on generated G-code and options (replay/weld.h), judged by an independent interpreter'
PROPS = {
 'C07': {'units': _c('containers.ARRAY_LIST'), 'real': False, 'assumptions': ['element type is represented by long (the template never inspects its elements); capacities below 2^28'], 'search_s': 40,
   'note': 'deductive proof of every public operation, unbounded; memory safety obligations included'},
 'C08': {'units': _c('containers.CIRCULAR'), 'real': False, 'assumptions': ['element type is represented by long (the template never inspects its elements); capacities below 2^28'], 'search_s': 40,
   'note': 'deductive proof of every public operation, unbounded; memory safety obligations included'},
 'C01': {'units': _c('geom.GEOM1', 'geom.u_arc_points', 'geom.u_arc3', 'shape.u_add_internal', 'shape.u_add_point', 'shape.u_ctor', 'shape.u_pops'), 'bounded': {'seconds': 12, 'what': WELD}, 'search_s': 60,
   'assumptions': ['runs of fewer than 2^26 points'], 'note': 'every function between the point run and the accepted arc is under contract; unbounded run length; end-to-end runs are an additional bounded check'},
 'C02': {'units': _c('geom.GEOM2', 'geom.u_circle3', 'geom.lemma_distance', 'geom.u_circle_points', 'shape.u_add_internal', 'shape.u_add_point', 'shape.u_gcode', 'shape.u_ctor', 'shape.u_pops', 'shape.u_uxyz', 'shape.u_ue'), 'bounded': {'seconds': 12, 'what': WELD}, 'search_s': 60,
   'assumptions': ['atan2 is the mathematical function (axioms: range, quadrant signs)', 'runs of fewer than 2^26 points'], 'note': 'contracts on circle/arc construction, slice check, run invariant and text; unbounded run length'},
 'C03': {'units': _c('shape.u_add_internal', 'shape.u_add_point', 'shape.u_gcode', 'shape.u_ctor', 'shape.u_pops', 'containers.ARRAY_LIST'), 'bounded': {'seconds': 12, 'what': WELD}, 'search_s': 60,
   'assumptions': ['runs of fewer than 2^26 points'], 'note': 'class invariant: totals are the ghost sums over the run, kept by every operation; unbounded'},

 'C04': {'units': _c('welder.u_process_gcode', 'shape.u_add_point', 'shape.u_add_internal', 'shape.u_ctor', 'shape.u_pops', 'shape.u_uxyz', 'shape.u_ue'), 'skip': r'^(no arc|arc): |source segment|^shape: |^accepted: (?!the new|one more|is a)', 'bounded': {'seconds': 12, 'what': WELD}, 'search_s': 60,
   'assumptions': ['contract of gcode_position::update as stated in contracts/welder.py (Update)', 'runs of fewer than 2^26 points'], 'note': 'the eligibility rule is the precondition of try_add_point at every call in process_gcode, from every reachable welder state (class invariant); unbounded histories'},
 'C05': {'units': _c('welder.u_process_gcode', 'welder.u_write_unwritten', 'welder.u_comment', 'welder.u_write_arc', 'process.PROCESS'), 'skip': r'^C16: |C04: |counted|segments grow|length grows|written and pending', 'bounded': {'seconds': 12, 'what': WELD}, 'search_s': 60,
   'assumptions': ['contract of gcode_position::update as stated in contracts/welder.py (Update)', 'the output stream keeps what is written to it'], 'note': 'ghost texts: output plus pending commands grow by exactly the command, or exactly the moves of the arc are replaced by its text; unbounded histories by the class invariant'},
 'C06': {'units': _c('welder.u_process_gcode', 'welder.u_write_unwritten', 'welder.u_comment', 'welder.u_write_arc', 'shape.u_add_point', 'shape.u_pops'), 'skip': r'C04: |counted|segments grow|length grows|written and pending|^shape: |source segment', 'bounded': {'seconds': 12, 'what': WELD}, 'search_s': 60,
   'assumptions': ['contract of gcode_position::update as stated in contracts/welder.py (Update)', 'runs of fewer than 2^26 points'], 'note': 'class invariant ties arc points, pending commands and tracked position; unbounded histories'},
 'C17': {'units': _c('welder.u_process_gcode', 'welder.u_write_unwritten', 'welder.u_write_arc', 'welder.STATS', 'shape.u_add_point'), 'skip': r'C04: |^shape: |the text written|everything before', 'bounded': {'seconds': 12, 'what': WELD}, 'search_s': 60,
   'assumptions': ['contract of gcode_position::update as stated in contracts/welder.py (Update)', 'counters below 2^30'], 'note': 'each counter is a postcondition over ghost sums of the pending commands; unbounded histories'},
 'C14': {'units': _c('shape.u_uxyz', 'shape.u_ue', 'shape.u_add_internal', 'shape.u_add_point', 'shape.u_gcode', 'shape.u_gcode_len', 'shape.u_num_digits', 'shape.lemma_places', 'shape.lemma_text_length', 'shape.u_ctor', 'shape.u_pops'), 'bounded': {'seconds': 15, 'what': WELD}, 'search_s': 60,
   'assumptions': ['runs of fewer than 2^26 points'], 'note': 'class invariant: predicted length of an accepted shape is within the limit, the prediction covers the text, the predicted digits cover the printed ones for each precision'},
 'C18': {'units': _c('shape.u_add_internal', 'shape.lemma_div', 'shape.u_add_point', 'shape.u_ctor', 'shape.u_pops', 'shape.u_uxyz', 'shape.u_ue', 'geom.u_arc_points', 'geom.u_circle3', 'geom.u_circle_points'), 'skip': r'^C14: |fits the configured', 'bounded': {'seconds': 12, 'what': WELD + '; exact circles fed to the real segmented_arc'}, 'search_s': 60,
   'assumptions': ['runs of fewer than 2^26 points', 'counters below 2^30'], 'note': 'class invariant: an accepted arc is drawn finely enough or is short enough; the refusal counter grows exactly for the others; unbounded histories'},
 'C13': {'units': _c('decimal_text.DECIMAL'), 'real': False, 'bounded': {'seconds': 10, 'what': 'utilities::dtos on generated numbers and precisions (replay/c13.cpp), compared in quadruple precision'}, 'search_s': 40,
   'assumptions': ['exponents of finite doubles'], 'note': 'digit-exact specification of the text for every digit sequence, exponent and precision; the digits themselves (grisu2) are an assumed contract, checked bounded'},
 'C09': {'units': _c('position.STEPS', 'position.POSITION', 'position.ACCESS', 'position.UPDATE', 'containers.RING'), 'skip': r'^C10: ', 'bounded': {'seconds': 12, 'what': 'the real parser and gcode_position on generated command histories with undo and growth of the history, against an independent interpreter of the commands (replay/track.h)'}, 'search_s': 60,
   'assumptions': ['the constructor of gcode_position establishes the tracker invariant (as many extruders as configured, tool in range): checked bounded only', 'std::map is a finite map', 'tool numbers of G10/M218 within int, of T other than 2147483648 (1-based)'], 'note': 'one executable specification per command, proved equal to the real function on every field of the position and every extruder, from every state; update, undo and the ring around them; unbounded histories'},
 'C10': {'units': _c('position.STEPS', 'position.POSITION', 'position.ACCESS', 'position.UPDATE', 'containers.RING'), 'skip': r'^(C09: |afterwards: (?!current_tool|[xyz]_firmware_offset of every))', 'bounded': {'seconds': 12, 'what': 'the real parser and gcode_position on generated histories heavy in tool commands with arbitrary tool numbers, with AddressSanitizer, against an independent interpreter (replay/track.h)'}, 'search_s': 60,
   'assumptions': ['the constructor of gcode_position establishes the tracker invariant (as many extruders as configured, tool in range): checked bounded only', 'std::map is a finite map', 'tool numbers of G10/M218 within int, of T other than 2147483648 (1-based)'], 'note': 'the tool in use is an invariant of the position kept by every command; every access to per-extruder storage carries a bounds obligation; unbounded histories'},
 'C11': {'units': _c('parser.NUMBERS'), 'bounded': {'seconds': 10, 'what': 'the real parser on generated numbers, tools and parameter lists in exactly sized buffers (AddressSanitizer), against an independent reader of decimal numbers (replay/c11.cpp)'}, 'search_s': 40,
   'assumptions': ['texts of fewer than 60000 characters', 'tool numbers below 2^32'], 'note': 'the number is a function of the text defined one character at a time; every loop keeps collected part + part still to come constant, for all texts; every read carries an in-bounds obligation'},
 'C12': {'units': _c('parser.LINES'), 'real': False, 'bounded': {'seconds': 10, 'what': 'the real parser on generated lines in exactly sized buffers (AddressSanitizer), against an independent splitting of the line (replay/c12.cpp)'}, 'search_s': 40,
   'assumptions': ['texts of fewer than 60000 characters', 'std::set membership is a function of the text; std::string is a sequence of characters'], 'note': 'command text, comment and name are functions of the text defined one character at a time; every loop keeps collected part + part still to come constant, for all texts; every read carries an in-bounds obligation'},
 'C16': {'units': _c('process.PROCESS'), 'skip': r'^C05: (only comment|success means)', 'bounded': {'seconds': 12, 'what': 'whole runs of the real welder in a scratch directory: in place or not, cancelled at every kind of point, write failures by a file size limit, missing source'}, 'search_s': 60, 'real': False,
   'assumptions': ['contract of process_gcode as proved for C05/C06 (u_process_gcode)', 'file model: what was written before a successful close is in the file; remove and rename do what they say'], 'note': 'file protocol of process(): ghost state of both files at every remove and rename, for any number of lines and any point of cancellation or failure'},
}

NOT_APPLICABLE = {k: 'check not built yet in this revision' for k in ['C%02d' % i for i in range(1, 30)]}
