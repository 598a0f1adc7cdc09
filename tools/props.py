"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note, technique, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note,
                  technique=technique, state=state, observe=observe))


CC = 'src/materials/tdycharacteristiccurves.c'
prop('C01', 'Saturation curves: bounded, monotone, consistent derivatives',
     'For every capillary pressure, residual saturation and shape parameter, the van Genuchten and Gardner saturations equal their published formulas: '
     'they lie between the residual saturation and 1, equal 1 whenever pressure is at or above the reference pressure, and never increase with capillary pressure. '
     'The reported first and second derivatives with respect to liquid pressure are the derivatives of the reported saturation.',
     ['inputs'], 'all capillary pressures (positive, zero, negative), residual saturations and shape parameters',
     'the regression tests use two or three fixed parameter sets on smooth pressure fields; a wrong branch, sign or exponent away from them is invisible',
     [CC], [('van Genuchten curve', CC + ':PressureSaturation_VanGenuchten'), ('Gardner curve', CC + ':PressureSaturation_Gardner')],
     'generated points, 40-digit reference arithmetic, scaled rounding tolerance', 'property-based testing against a high-precision reference model')
prop('C02', 'Relative permeability: bounded, monotone, C1, consistent derivative',
     'For every effective saturation in [0,1] the Irmay and Mualem relative permeabilities equal their published formulas, lie in [0,1], reach 1 at full saturation and never decrease with saturation below the smoothing interval. '
     'Inside the Mualem smoothing interval the value is the cubic that joins the unsmoothed curve (value and slope) to 1 with zero slope, so value and derivative are continuous; the reported derivative is that of the reported value.',
     ['inputs'], 'all effective saturations, exponents and smoothing intervals ending at full saturation',
     'the tests exercise one exponent and the default smoothing interval; the smoothed range is only entered when a cell passes through 99 to 100% saturation',
     [CC], [('Irmay', CC + ':RelativePermeability_Irmay'), ('Mualem with cubic smoothing', CC + ':RelativePermeability_Mualem, RelativePermeability_Mualem_GetSmoothingCoeffs')],
     'generated points incl. both sides of each joint, 40-digit reference arithmetic', 'property-based testing against a high-precision reference model')
prop('C03', 'Every point is governed by the curve last assigned to it',
     'After any history of assigning saturation or relative-permeability curves to sets of points, evaluating all points or any selection of points (in any order, with repeats) uses for each point the curve type and parameters most recently assigned to it. '
     'Points that have no curve are left untouched, and re-assignment or destruction never touches released memory.',
     ['histories', 'inputs'], 'all sequences of assignments and evaluations over points and curve types',
     'every test assigns curves once, with one type, before the first evaluation',
     [CC], [('point sets and lazily built point maps', CC + ':SaturationSetType, SaturationComputeOnPoints, RelativePermeabilitySetType, RelativePermeabilityComputeOnPoints')],
     'model-based histories against a dictionary model, also under AddressSanitizer', 'stateful model-based testing with a dictionary model, plain and under ASan')
prop('C04', 'Fluid laws: density, viscosity, enthalpy and brine fraction with derivatives',
     'For every pressure, temperature and salinity in range, each selectable water density, viscosity and enthalpy law and the brine mass fraction return the value of the published law, physically positive, and every pressure or temperature derivative they report is the derivative of that value. '
     'Every output a caller passes is written by every law.',
     ['inputs', 'configurations'], 'all laws x pressures, temperatures, salinities',
     'regression tests use constant or exponential density at a few pressures; the Batzle-Wang law is not exercised by them',
     ['src/materials/tdyeos.c'], [('laws', 'src/materials/tdyeos.c:EOSComputeWaterDensity, EOSComputeWaterViscosity, EOSComputeWaterEnthalpy, EOSComputeSalinityFraction')],
     'generated points against 40-digit published formulas; output slots pre-filled with sentinels', 'property-based testing against a high-precision reference model')

NOT_APPLICABLE = []


def main():
    import glob
    ex = os.path.join(V, 'tools', 'props_more.py')
    if os.path.exists(ex):
        exec(compile(open(ex).read(), ex, 'exec'), globals())
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            a['observe_at'] = p['observe'] or [w for _, w in p['mech']][:2]
            a['hook_needed'] = None
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    na = {x['property'] for x in NOT_APPLICABLE}
    m = {'version': 1, 'setup_cmd': 'python3 harness/build.py plain asan',
         'checks': [{'property': p['id'], 'quick_cmd': './run.sh %s --tier quick' % p['id'], 'thorough_cmd': './run.sh %s --tier thorough' % p['id'],
                     'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in P if p['id'] not in na],
         'not_applicable': NOT_APPLICABLE,
         'notes': 'No hooks: the harness compiles /repo/src with its own flags into a shared library under /verif/build (content-hash cached) and drives it from Hypothesis. '
                  'known_findings.txt lists repaired and recorded defects.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    try:
        import jsonschema
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for l in open(os.path.join(V, 'properties.jsonl')):
            jsonschema.validate(json.loads(l), s)
        jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
        print(len(P), 'properties; schemas ok')
    except ImportError:
        print(len(P), 'properties; not validated')


main()
