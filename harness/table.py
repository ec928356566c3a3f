"""Which specification, models and driver decide which property."""

T = dict(area='transforms', models=['MC_Transforms.cfg'], gens=['MC_Transforms_gen.cfg'],
         thorough_models={'MC_Transforms.cfg': 'MC_Transforms_deep.cfg'},
         trace='Trace_Transforms')
P = dict(area='polyline', trace='Trace_Polyline')
PL = dict(P, models=['MC_Polyline.cfg'], gens=['MC_Polyline_gen.cfg'],
          thorough_models={'MC_Polyline.cfg': 'MC_Polyline_deep.cfg'})
PN = dict(area='planes', trace='Trace_PlaneApi', models=['MC_Planes.cfg'], gens=['MC_Planes_gen.cfg'],
          thorough_models={'MC_Planes.cfg': 'MC_Planes_deep.cfg'})
TABLE = {
    'C01': dict(T, ops={'append', 'call', 'matrix'}),
    'C02': dict(T, ops={'call', 'matrix', 'round_trip'}),
    'C03': dict(T, ops={'append', 'tag', 'set', 'get', 'move'}),
    'C04': dict(PL, ops={'probe', 'set_bad', 'new_bad', 'copy', 'set_v', 'set_closed', 'poke'}),
    'C05': dict(PL, gens=[], ops={'partition', 'reindexed', 'flip', 'segment', 'segment_refused', 'fill'}),
    'C06': dict(P, models=['MC_Cut.cfg'], gens=['MC_Cut_gen.cfg'],
                thorough_models={'MC_Cut.cfg': 'MC_Cut_deep.cfg'}, ops={'cut', 'intersect'}),
    'C07': dict(PN, ops={'make', 'query', 'project', 'flipped'}),
    'C08': dict(PN, ops={'line', 'segment', 'batch'}),
    'C09': dict(area='slices', trace='Trace_MeshSlice', models=['MC_Path.cfg', 'MC_Mesh.cfg'], gens=['MC_Mesh_gen.cfg'],
                thorough_models={'MC_Path.cfg': 'MC_Path_deep.cfg'}, ops={'slice'}),
    'C10': dict(area='units', trace='Trace_UnitsApi', models=['MC_Units.cfg'], gens=['MC_Units_gen.cfg'],
                ops={'factor', 'convert', 'convert_list', 'to_default', 'to_system', 'prettify', 'catalog', 'defaults'}),
    'C11': dict(area='value', trace='Trace_ValueApi', models=['MC_Value.cfg'], gens=['MC_Value_gen.cfg'],
                thorough_models={'MC_Value.cfg': 'MC_Value_deep.cfg'},
                ops={'new', 'set_value', 'set_units', 'bin', 'refused', 'compare', 'as', 'unary'}),
    'C12': dict(area='json', trace='Trace_JsonApi', models=['MC_Json.cfg'], gens=['MC_Json_gen.cfg'],
                ops={'roundtrip', 'decode'}),
    'C13': dict(area='coerce', trace='Trace_CoerceApi', models=['MC_Coerce.cfg'], gens=['MC_Coerce_gen.cfg'],
                thorough_models={'MC_Coerce.cfg': 'MC_Coerce_deep.cfg'}, ops={'coerce', 'pred'}),
    'C14': dict(area='vx', trace='Trace_VxApi', models=['MC_Vx.cfg'], gens=['MC_Vx_gen.cfg'],
                thorough_models={'MC_Vx.cfg': 'MC_Vx_deep.cfg'}, ops={'vector', 'angle', 'almost', 'pad', 'apply', 'basis'}),
    'C15': dict(area='rotations', trace='Trace_RotationsApi', models=['MC_Rotations.cfg'], gens=['MC_Rotations_gen.cfg'],
                thorough_models={'MC_Rotations.cfg': 'MC_Rotations_deep.cfg'},
                ops={'up_look', 'euler', 'from_vector', 'from_matrix', 'as_matrix', 'refused', 'xz', 'normal'}),
    'C16': dict(area='rigid', trace='Trace_RigidApi', models=['MC_Rigid.cfg'], gens=['MC_Rigid_gen.cfg'],
                thorough_models={'MC_Rigid.cfg': 'MC_Rigid_deep.cfg'}, ops={'transform', 'rotation'}),
    'C17': dict(area='linalg', trace='Trace_LinAlgApi', models=['MC_LinAlg.cfg'], gens=['MC_LinAlg_gen.cfg'],
                thorough_models={'MC_LinAlg.cfg': 'MC_LinAlg_deep.cfg'}, ops={'ortho', 'iso'}),
    'C18': dict(area='lines', trace='Trace_LinesApi', models=['MC_Lines.cfg'], gens=['MC_Lines_gen.cfg'],
                thorough_models={'MC_Lines.cfg': 'MC_Lines_deep.cfg'}, ops={'line2', 'line3', 'bary'}),
    'C19': dict(area='extremes', trace='Trace_ExtremesApi', models=['MC_Extremes.cfg'], gens=['MC_Extremes_gen.cfg'],
                thorough_models={'MC_Extremes.cfg': 'MC_Extremes_deep.cfg'},
                ops={'apex', 'far', 'inflection', 'box', 'box_bad'}),
    'C20': dict(area='hull', trace='Trace_HullApi', models=['MC_Hull.cfg'], gens=['MC_Hull_gen.cfg'],
                thorough_models={'MC_Hull.cfg': 'MC_Hull_deep.cfg'}, ops={'hull'}),
    'C21': dict(area='sparse', trace='Trace_SparseApi', models=['MC_Sparse.cfg'], gens=['MC_Sparse_gen.cfg'],
                thorough_models={'MC_Sparse.cfg': 'MC_Sparse_deep.cfg'}, ops={'chol', 'blocks', 'cg', 'bcg'}),
    'C22': dict(area='shapes', trace='Trace_ShapesApi', models=['MC_Shapes.cfg'], gens=['MC_Shapes_gen.cfg'],
                thorough_models={'MC_Shapes.cfg': 'MC_Shapes_deep.cfg'}, ops={'box', 'prism', 'plane', 'normal'}),
    'C23': dict(area='helpers', trace='Trace_HelpersApi', models=['MC_Helpers.cfg'], gens=['MC_Helpers_gen.cfg'],
                thorough_models={'MC_Helpers.cfg': 'MC_Helpers_deep.cfg'},
                ops={'round', 'rlist', 'scale', 'divide', 'reshape', 'readonly', 'row', 'col', 'bsx', 'sparse', 'translate'}),
    'C24': dict(area='console', trace='Trace_ConsoleApi', models=['MC_Console.cfg'], gens=['MC_Console_gen.cfg'],
                thorough_models={'MC_Console.cfg': 'MC_Console_deep.cfg'}, ops={'float', 'value'}),
    'C25': dict(area='normals', trace='Trace_NormalsApi', models=['MC_Normals.cfg'], gens=['MC_Normals_gen.cfg'],
                thorough_models={'MC_Normals.cfg': 'MC_Normals_deep.cfg'},
                ops={'mesh', 'read', 'set_v', 'set_f', 'set_unit', 'set_corners', 'factors', 'read_cross', 'set_a', 'set_b', 'vectors', 'read_unit'}),
}

NOTE = ('The design is model checked exhaustively within the stated bounds; the binding to the code is by '
        'validation of recorded executions (the model\'s behaviours and seeded random ones), so it covers '
        'the executions explored. Trusted: TLC, the JVM, the Java arithmetic (checked against its TLA+ '
        'definition), and the recording harness. ')
for _k, _v in TABLE.items():
    _v['note'] = NOTE + _v.get('extra', '')

NOT_APPLICABLE = {}
