"""P01: runs a history of operations on alternates and records the visible values
after each. The document is only looked at through what it writes."""
import copy, io, sys
from xml.etree import ElementTree as et
import common
from common import main

DRAFTS = ['approved', 'contributed', 'provisional', 'unconfirmed', 'tentative', 'generated', 'suspect']
SIL = '{urn://www.sil.org/ldml/0.1}'
ITEMS = {   # name -> (path, parent path, tag, attributes)
    'i1': ('localeDisplayNames/languages/language[@type="aa"]', 'localeDisplayNames/languages', 'language', {'type': 'aa'}),
    'i2': ('localeDisplayNames/languages/language[@type="bb"]', 'localeDisplayNames/languages', 'language', {'type': 'bb'}),
    'i3': ('delimiters/quotationStart', 'delimiters', 'quotationStart', {}),
}


def initial(case):
    ident = ""
    if case.get('uid') or case.get('defdraft') is not None:
        ident = "<special xmlns:sil='urn://www.sil.org/ldml/0.1'><sil:identity%s%s/></special>" % (
            (' uid="%s"' % case['uid']) if case.get('uid') else '',
            (' draft="%s"' % DRAFTS[case['defdraft']]) if case.get('defdraft') is not None else '')
    body = {"localeDisplayNames/languages": "", "delimiters": ""}
    for i, v in case.get('doc', []):
        path, pp, tag, attrs = ITEMS[i]
        a = "".join(' %s="%s"' % x for x in attrs.items())
        if v.get('d') is not None: a += ' draft="%s"' % DRAFTS[v['d']]
        if v.get('alt'): a += ' alt="%s"' % v['alt']
        body[pp] += "<%s%s>%s</%s>" % (tag, a, v['t'], tag)
    x = "<ldml><identity><language type='xx'/>%s</identity>" % ident
    if body["localeDisplayNames/languages"]:
        x += "<localeDisplayNames><languages>%s</languages></localeDisplayNames>" % body["localeDisplayNames/languages"]
    if body["delimiters"]:
        x += "<delimiters>%s</delimiters>" % body["delimiters"]
    return x + "</ldml>"


def write(l):
    o = []
    l.serialize_xml(o.append)
    return "".join(o)


def project(txt, default):
    """ item -> [primary, alternates], values are [text, draft or default] """
    root = et.fromstring(txt.encode('utf-8'))
    res = {}
    for i, (path, pp, tag, attrs) in ITEMS.items():
        prims = []
        alts = []
        for e in root.findall(pp + "/" + tag):
            if any(e.get(k) != v for k, v in attrs.items()):
                continue
            d = e.get('draft')
            v = {'t': e.text or '', 'd': DRAFTS.index(d) if d else default}
            if e.get('alt') is None:
                prims.append(v)
            else:
                v['a'] = e.get('alt')
                alts.append(v)
        res[i] = {'p': prims, 'a': sorted(alts, key=lambda x: (x['a'], x['t'], x['d']))}
    return res


def run(case):
    from sldr.ldml import Ldml
    l = Ldml(io.BytesIO(initial(case).encode('utf-8')))
    if case.get('usedraft') is not None:
        l.use_draft = DRAFTS[case['usedraft']]
    default = case['defdraft'] if case.get('defdraft') is not None else 3
    obs = [project(write(copy.deepcopy(l)), default)]
    rets = []
    for op in case['ops']:
        k = op['op']
        ret = []
        if k == 'reload':
            l = Ldml(io.BytesIO(write(l).encode('utf-8')))
            if case.get('usedraft') is not None:
                l.use_draft = DRAFTS[case['usedraft']]
        elif k == 'save':
            write(l)
        else:
            path, pp, tag, attrs = ITEMS[op['i']]
            d = DRAFTS[op['d']] if op.get('d') is not None else None
            if k == 'add':
                a = dict(attrs)
                if d is not None: a['draft'] = d
                e = l.addnode(l.ensure_path(pp)[0], tag, attrib=a, alt=op.get('alt'), text=op['t'])
            elif k == 'change':
                e = l.find(path)
                if e is not None:
                    l.change_draft(e, d, alt=op.get('alt'))
            elif k == 'ensure':
                r = l.ensure_path(path, text=op['t'], draft=d, alt=op.get('alt'))
                ret = [x.text or '' for x in r]
        obs.append(project(write(copy.deepcopy(l)), default))
        rets.append(ret)
    return {'obs': obs, 'rets': rets}


if __name__ == '__main__':
    main(run)
