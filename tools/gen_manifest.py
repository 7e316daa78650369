#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of MIR (decision-diagram value domain)'
LAYOUT = AI + ' against a layout table'
BASE = ('Every obligation is decided from the MIR of the current source; values are sets of bits represented exactly, so a discharged obligation holds for every value '
        'covered by the stated domain. A violation is reported only with a concrete witness under the path condition. Trusted: rustc\'s MIR, the library models in vt/m_*.py, ')
E2E = 'abstract source templates (literal tokens, symbolic words and characters) interpreted end to end; '
T = {
    'C01': (AI + ' against the x86-64 register table', BASE + 'the register table.'),
    'C02': (AI + ' with an independent x86-64 decoder as oracle', BASE + 'the decoder in vt/x86.py. All registers, all immediates.'),
    'C03': (AI + ' with an independent x86-64 decoder as oracle', BASE + 'the decoder in vt/x86.py. All base/index registers, scales and 32-bit displacements.'),
    'C04': (AI + ': dataflow of immediate bytes', BASE + 'nothing else. All registers and immediates.'),
    'C05': (AI + ': panic and length reachability', BASE + 'nothing else. All instruction values of the public constructors.'),
    'C06': (LAYOUT, BASE + 'the layout table. Flag sets: none, each, all, seeded pairs; other fields: all values.'),
    'C07': (LAYOUT, BASE + 'the layout table. Both byte orders; flag sets as in C06; nested counts 0..63 and one large.'),
    'C08': (AI + ' of writer, reader and equality composed', BASE + 'nothing else. Nested entries up to 2 (quick) or 5 (thorough).'),
    'C09': (AI + ' against the code tables of the Mach-O headers', BASE + 'the code tables. All numbers of the width.'),
    'C10': (AI + ': bit-level dependence of packed words', BASE + 'the bit layout table. Flag words: windows of 5 (quick) or 8 (thorough) symbolic bits.'),
    'C11': (AI + ' of load-command dispatch', BASE + 'the layout table. Nested counts up to 2 (quick) or 7 (thorough), all codes.'),
    'C12': (AI + ' of string-table operations', BASE + 'nothing else. Listed string lengths, every character symbolic, three additions.'),
    'C13': (AI + ' of name fields', BASE + 'nothing else. All lengths 0..16 and over-long ones, every character symbolic.'),
}
OBJ = ' Section lengths up to 64 MiB and contents symbolic, symbol names symbolic; shapes of objects as listed in vt/p_obj.py.'
PRG = ' Program shapes: the fixed and generated ones (vt/p_asm.py), with names, numbers, string contents and lengths symbolic.'
O1 = BASE + 'the Mach-O reader in vt/macho.py.' + OBJ
A1 = BASE + 'the Mach-O reader and the x86-64 decoder.' + PRG
X1 = BASE + 'the Mach-O reader and the x86-64 decoder. '
C1 = BASE + 'the model of the file system and of the process environment in vt/m_io.py. '
ORA = AI + ' with an independent Mach-O reader as oracle'
ORB = AI + ' of source templates with an independent Mach-O reader and x86-64 decoder as oracle'
PRO = AI + ' of the whole program against an abstract file system'
T.update({
    'C14': (ORA, O1), 'C15': (ORA, O1), 'C16': (ORA, O1), 'C17': (ORA, O1), 'C18': (ORA, O1),
    'C19': (ORB, A1), 'C20': (ORB, A1), 'C21': (ORB, A1), 'C22': (ORB, A1),
    'C23': (ORB, X1 + 'All registers, all 64 bit literals; register pairs 32 per width (quick) or all (thorough).'),
    'C24': (ORB, X1 + 'All words of up to 5 (quick) or 7 (thorough) visible ASCII characters.'),
    'C25': (ORB, X1 + 'All numbers, strings of any length and content (ASCII), lists of the listed shapes.'),
    'C26': (ORB, X1 + 'All literals and pairs of literals; digit by digit up to the stated length.'),
    'C27': (ORB, X1 + 'The listed statement forms followed by an arbitrary word (symbolic characters).'),
    'C28': (PRO, C1 + 'The listed kinds of bad lines at positions up to 300 (quick) or 1500 (thorough).'),
    'C29': (PRO + ', with injected faults', C1 + 'The listed refused inputs, fixed and generated accepted ones.'),
    'C30': (PRO, C1 + 'The listed argument vectors with concrete and symbolic path texts.'),
    'C31': ('call-site scan for nondeterminism sources plus ' + AI + ' with the sources as free values', BASE + 'the list of sources in vt/p_cli.py.' + PRG),
    'C32': (AI + ' with a fault at every input or output operation in turn', C1 + 'All record kinds; object and program shapes as listed.'),
    'C33': (ORB, X1 + 'All statement forms, white space and comments of any length.'),
})
NA = {
    'C34': 'the truth of this depends on the system linker, the loader and the processor, none of which is in the source; no static argument over this repository reaches them '
           '(what the repository contributes to it is C14-C18 and C19-C26)',
    'C35': 'a quantitative time and memory bound; the quadratic name lookups of at-obj make it a performance goal rather than a guarantee, and no sound static cost analysis of '
           'Rust MIR with allocation is in reach here (termination on every analysed template is a by-product of C19-C33)',
}
try:
    from manifest_more import T2
    T.update(T2)
except ImportError:
    pass


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in T:
            tech, note = T[i]
            checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                               technique=tech, level='other', level_note=note))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'no check has been built yet')))
    m = dict(version=1, setup_cmd='python3 -m vt.build', checks=checks, not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not applicable')


main()
