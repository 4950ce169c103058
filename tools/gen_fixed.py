#!/usr/bin/env python3
"""Prints the 'fixed:' lines of known_findings.txt from the fix commits in /repo."""
import subprocess
MAP = [('length is an expression','C40'),('struct declarations in C','C20'),('points exactly on the boundary','C14'),('Pareto plot failed','C31'),('no longer share their votes','C38'),('integer overflow when checking the position to set','C36'),('Hann window of a single','C36'),('more than 32767 values did not','C12'),('models changed along','C16'),('EML_DEBUG did not compile','C33'),('log: arrays','C33'),('iir: the check of sizes','C24'),('net_fixedpoint: argmax','C29'),('log2fix','C29'),('quantizer: scale overflowed','C30'),('quantizer: limits beyond','C30'),('quantizer: learning the range','C30'),('names that match a parameter','C19'),('did not compile as C++','C19'),('refuse names that are not C identifiers','C19'),('EML_ARRAY_INIT_2D','C21'),('fileio: read errors','C23'),
('trees: take the same branch','C04'),('cgen: literals keep','C20'),('cgen: an identifier','C19'),('child references','C06'),('loadable models with more classes','C06'),
('leaf_bits that are not','C06'),('class proportions quantize to zero','C02'),('CSV export of soft','C05'),('read regression leaves','C03'),('number of features also for prob','C07'),
('no longer share','C16'),('transport features','C17'),('inference errors are raised','C06'),("method='inline' generates",'C18'),('refuse models and options','C18'),
('two-output networks','C09'),('missing features, buffers','C10'),('distances of large','C13'),('more classes than supported','C13'),('wrong number of features was reported as an outlier','C14'),
('fixedpoint: mult','C29'),('bayes: more than 10','C11'),('values far from','C11'),('rounded to 6','C15'),('mixture: check the number','C15'),('EmlUnsupported and EmlUninit','C33'),
('refuse to copy rows','C21'),('failed and incomplete writes','C23'),('report read errors','C23'),('initialization that fails','C21'),('append is not','C21'),('integer overflow in range','C21'),
('headers can be included','C33'),('wrong weight at their peak','C26'),('beyond the spectrum','C26'),('buffers of melspec','C26'),('imaginary part','C26'),('throw exceptions by value','C24'),
('SOS did not','C24'),('inconsistent arguments','C27'),('sparse filterbanks with','C27'),('narrow line wrapping','C28'),('--htk False','C28'),('arduino','C34'),('convert: refuse options','C18'),
('quantizer: out','C30'),('equal cost','C31'),('mean_test_score','C31'),('size of leaves','C32'),('sensor fetch','C35'),('not C types','C06'),("inference=['loadable']",'C18'),
('unsigned int literals','C20'),('Keras activation','C08'),('do not fit together','C10'),('softmax of large','C09'),('class priors','C11'),('responsibilities did not sum','C15'),('arrays of the source model','C16'),('explicit kind was','C18')]
for l in reversed(subprocess.run(['git','-C','/repo','log','--format=%h %s'],stdout=subprocess.PIPE,text=True).stdout.splitlines()):
    h, s = l.split(' ',1)
    if not s.startswith('fix:'): continue
    m = [p for k,p in MAP if k in s]
    assert m, s
    print(f'fixed: property={m[0]} {h} {s[4:].strip()}')
