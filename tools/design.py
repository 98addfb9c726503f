"""writes DESIGN.md from design/head.md, the property modules, known_findings.json and the planted bugs"""
import glob, importlib, json, os, sys, textwrap
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def wrap(s, ind=''):
    return '\n'.join(textwrap.wrap(s, 124, initial_indent=ind, subsequent_indent=' ' * len(ind)))


def main():
    out = [open(os.path.join(HERE, 'design/head.md')).read()]
    out.append('## 2. Properties\n')
    findings = json.load(open(os.path.join(HERE, 'known_findings.json')))
    seeded = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
        d = json.load(open(f))
        seeded.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(f)), d))
    for f in sorted(glob.glob(os.path.join(HERE, 'props/c[0-9][0-9].py'))):
        m = importlib.import_module('props.' + os.path.basename(f)[:-3])
        P = m.PROPERTY
        out.append('### %s %s\n' % (m.ID, P['title']))
        out.append(wrap(P['statement']) + '\n')
        out.append(wrap('*Why tests cannot settle it*: ' + P['why']) + '\n')
        out.append(wrap('*How it is decided*: %s. %s' % (m.TECHNIQUE, m.NOTE)) + '\n')
        fns, byunit = [], []
        for u in m.UNITS:
            for q in u.functions:
                if q not in fns:
                    fns.append(q)
        out.append(wrap('*Functions under contract* (%d, in %d units): %s.' % (
            len(fns), len(m.UNITS), ', '.join(q.replace(':', '.').replace('cis.', '', 1) for q in fns))) + '\n')
        b = getattr(m, 'BOUNDED_FUNCTIONS', [])
        if getattr(m, 'RULE', None):
            out.append(wrap('*Bounded part*%s: %s' % (
                (' (' + ', '.join(q.replace(':', '.').replace('cis.', '', 1) for q in b) + ')') if b else '', m.RULE)) + '\n')
        if m.ASSUMPTIONS:
            out.append(wrap('*Assumptions*: ' + '; '.join(m.ASSUMPTIONS) + '.') + '\n')
        mine = [x for x in findings if x['property'] == m.ID]
        for x in mine:
            if x['status'] == 'open':
                out.append(wrap('*Known finding* (`%s`): %s.' % (x['signature'], x['what'])) + '\n')
        fx = [x for x in mine if x['status'] == 'fixed']
        if fx:
            out.append('*Defects found by the check and repaired in /repo*:\n')
            out.extend(wrap('%s: %s' % (x['commit'], x['what']), '- ') for x in fx)
            out.append('')
        if m.ID in seeded:
            out.append('*Planted bugs which the check catches*:\n')
            out.extend(wrap('`%s`: needs %s; %s.' % (n, d['needs'].rstrip('.'), d['what_it_breaks'].rstrip('.')), '- ')
                       for n, d in seeded[m.ID])
            out.append('')
    out.append(open(os.path.join(HERE, 'design/tail.md')).read())
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))


if __name__ == '__main__':
    main()
