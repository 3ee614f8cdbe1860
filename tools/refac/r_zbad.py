# not refactorings: loop versions with a mistake, which have to be reported
_m={r[0]:r for r in R}
def _bad(id,of,a,b):
    f,x,y=_m[of][2][0]; assert y.count(a)==1,id; refac('BAD-'+id,' '.join(_m[of][1]),[(f,x,y.replace(a,b))])
_bad('unseta1','unseta-loop','    found->m_attrs = nullptr;\n','')
_bad('unseta2','unseta-loop','code() < code','code() <= code')
_bad('seta1','seta-loop','code() < attr->code()','code() <= attr->code()')
_bad('seta2','seta-loop','        attr->m_attrs = old->m_attrs;\n','')
_bad('seta3','seta-loop','        *pos = attr.release();\n        delete old;','        *pos = attr.release();')
