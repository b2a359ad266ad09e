"""Generates plain-struct C++ message classes from /repo's .proto files.

Only the accessors of the generated-code API are provided (get, set, has, clear,
mutable, repeated, oneof, enums, copy/merge/clear/swap); wire format, reflection
and arenas are left out. Field presence, defaults and oneof behaviour follow the
proto2 language rules.
"""
import os
import re

SC = {'double': 'double', 'float': 'float', 'int32': 'int32_t', 'int64': 'int64_t', 'uint32': 'uint32_t', 'uint64': 'uint64_t',
      'sint32': 'int32_t', 'sint64': 'int64_t', 'fixed32': 'uint32_t', 'fixed64': 'uint64_t', 'sfixed32': 'int32_t',
      'sfixed64': 'int64_t', 'bool': 'bool', 'string': 'std::string', 'bytes': 'std::string'}


class Msg(object):
    def __init__(self, name):
        self.name, self.fields, self.enums, self.msgs, self.oneofs = name, [], [], [], []


class Parser(object):
    def __init__(self, text):
        text = re.sub(r'//[^\n]*', '', text)
        text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
        self.t = re.findall(r'"(?:[^"\\]|\\.)*"|[A-Za-z_][\w.]*|-?\d[\w.+-]*|\S', text)
        self.p = 0

    def nxt(self):
        self.p += 1
        return self.t[self.p - 1]

    def peek(self):
        return self.t[self.p] if self.p < len(self.t) else None

    def skip_to(self, ch=';'):
        while self.nxt() != ch:
            pass

    def file(self):
        self.pkg, self.imports, top = '', [], Msg('')
        while self.peek() is not None:
            k = self.nxt()
            if k == 'package':
                self.pkg = self.nxt()
                self.nxt()
            elif k == 'import':
                n = self.nxt()
                if n in ('public', 'weak'):
                    n = self.nxt()
                self.imports.append(n.strip('"'))
                self.nxt()
            elif k == 'message':
                top.msgs.append(self.msg())
            elif k == 'enum':
                top.enums.append(self.enum())
            elif k in ('syntax', 'option'):
                self.skip_to()
        return top

    def enum(self):
        n = self.nxt()
        self.nxt()
        vals = []
        while self.peek() != '}':
            k = self.nxt()
            if k in ('option', 'reserved'):
                self.skip_to()
                continue
            if k == ';':
                continue
            self.nxt()
            vals.append((k, int(self.nxt(), 0)))
            self.skip_to()
        self.nxt()
        return (n, vals)

    def msg(self):
        m = Msg(self.nxt())
        self.nxt()
        while self.peek() != '}':
            k = self.nxt()
            if k == 'message':
                m.msgs.append(self.msg())
            elif k == 'enum':
                m.enums.append(self.enum())
            elif k in ('option', 'reserved', 'extensions'):
                self.skip_to()
            elif k == ';':
                pass
            elif k == 'oneof':
                o = self.nxt()
                self.nxt()
                m.oneofs.append((o, []))
                while self.peek() != '}':
                    t = self.nxt()
                    if t == ';':
                        continue
                    f = self.field('oneof', t)
                    m.oneofs[-1][1].append(f)
                    m.fields.append(f)
                self.nxt()
            else:
                rep = k
                if k in ('optional', 'required', 'repeated'):
                    t = self.nxt()
                else:
                    rep, t = 'optional', k
                m.fields.append(self.field(rep, t))
        self.nxt()
        return m

    def field(self, rep, t):
        name = self.nxt()
        self.nxt()
        num = int(self.nxt(), 0)
        dflt = None
        if self.peek() == '[':
            self.nxt()
            while self.peek() != ']':
                k = self.nxt()
                if k == 'default':
                    self.nxt()
                    dflt = self.nxt()
        self.skip_to()
        return dict(rep=rep, type=t, name=name, num=num, dflt=dflt)


def camel(s):
    return ''.join(x[:1].upper() + x[1:] for x in re.split(r'_', s))


def gen(path, rel):
    P = Parser(open(path).read())
    top = P.file()
    out = []
    w = out.append
    guard = 'VP_PB_' + re.sub(r'\W', '_', rel)
    w('#ifndef %s\n#define %s' % (guard, guard))
    w('#include <cstdint>\n#include <string>\n#include <vector>\n#include "google/protobuf/message.h"')
    for i in P.imports:
        if not i.startswith('google/'):
            w('#include "%s"' % i.replace('.proto', '.pb.h'))
    for n in [x for x in P.pkg.split('.') if x]:
        w('namespace %s {' % n)

    def enums(m, full):
        for n, vals in m.enums:
            en = (full + '_' + n) if full else n
            w('enum %s : int { %s };' % (en, ', '.join('%s%s = %d' % ((en + '_') if full else '', k, v) for k, v in vals)))
            seen, cases = set(), ''
            for i, (k, v) in enumerate(vals):
                if v not in seen:
                    seen.add(v)
                    cases += 'case %d: return n[%d]; ' % (v, i)
            w('inline const std::string& %s_Name(int v) { static const std::string n[] = {%s, ""}; switch (v) { %sdefault: return n[%d]; } }' % (
                en, ', '.join('"%s"' % k for k, _ in vals), cases, len(vals)))
            w('inline bool %s_IsValid(int v) { %s return false; }' % (en, ' '.join('if (v == %d) return true;' % v for v in sorted(set(v for _, v in vals)))))
            w('inline bool %s_Parse(const std::string& s, %s* v) { %s return false; }' % (
                en, en, ' '.join('if (s == "%s") { *v = static_cast<%s>(%d); return true; }' % (k, en, v) for k, v in vals)))

    def msg(m, prefix, scope):
        full = (prefix + '_' + m.name) if prefix else m.name
        scope = scope + [m]
        for s in m.msgs:
            msg(s, full, scope)
        enums(m, full)
        names_e = {}
        names_m = {}
        pre = ''
        for sc_full, sc in full_scopes(scope):
            for n, vals in sc.enums:
                names_e[n] = (sc_full + '_' + n, vals)
            for s in sc.msgs:
                names_m[s.name] = sc_full + '_' + s.name
        for n, vals in top.enums:
            names_e.setdefault(n, (n, vals))

        def ctype(t):
            t = t.split('.')[-1] if t.startswith(P.pkg + '.') and P.pkg else t
            if t in SC:
                return SC[t], 'str' if SC[t] == 'std::string' else 'sc', None
            if t in names_e:
                return names_e[t][0], 'enum', names_e[t][1]
            if t in names_m:
                return names_m[t], 'msg', None
            return t.replace('.', '_'), 'msg', None
        w('class %s final : public ::google::protobuf::Message {' % full)
        w(' public:')
        for n, vals in m.enums:
            en = full + '_' + n
            w('  using %s = %s;' % (n, en))
            for k, v in vals:
                w('  static constexpr %s %s = %s_%s;' % (n, k, en, k))
            w('  static const std::string& %s_Name(int v) { return %s_Name(v); }' % (n, en))
            w('  static bool %s_IsValid(int v) { return %s_IsValid(v); }' % (n, en))
            w('  static constexpr %s %s_MIN = static_cast<%s>(%d);' % (n, n, n, min(v for _, v in vals)))
            w('  static constexpr %s %s_MAX = static_cast<%s>(%d);' % (n, n, n, max(v for _, v in vals)))
        for s in m.msgs:
            w('  using %s = %s_%s;' % (s.name, full, s.name))
        w('  %s() {}' % full)
        w('  static const %s& default_instance() { static const %s* d = new %s(); return *d; }' % (full, full, full))
        w('  static std::string VpTypeName() { return "%s"; }' % full)
        in_one = {}
        for o, fs in m.oneofs:
            for f in fs:
                in_one[f['name']] = o
            w('  enum %sCase { %s, %s_NOT_SET = 0 };' % (camel(o), ', '.join('k%s = %d' % (camel(f['name']), f['num']) for f in fs), o.upper()))
            w('  %sCase %s_case() const { return static_cast<%sCase>(case_%s_); }' % (camel(o), o, camel(o), o))
            w('  void clear_%s() { case_%s_ = 0; }' % (o, o))
        members = []
        clear, merge, size = [], [], []
        for f in m.fields:
            n = f['name']
            ct, kind, vals = ctype(f['type'])
            tag = 1
            while (f['num'] << 3) >> (7 * tag):
                tag += 1
            base = f['type'].split('.')[-1]
            one = {'float': '4u', 'fixed32': '4u', 'sfixed32': '4u', 'double': '8u', 'fixed64': '8u', 'sfixed64': '8u', 'bool': '1u'}.get(base)
            if kind == 'str':
                one = '::google::protobuf::VpLen(%s.size())'
            elif kind == 'msg':
                one = '::google::protobuf::VpLen(%s.ByteSizeLong())'
            elif one is None:
                one = '::google::protobuf::VpVar(' + ('::google::protobuf::VpZig(%s)' if base.startswith('sint') else 'static_cast<uint64_t>(static_cast<int64_t>(%s))') + ')'
            one = '%du + %s' % (tag, one)
            if f['rep'] == 'repeated':
                size.append('for (int i = 0; i < %s_.size(); ++i) n += %s;' % (n, one.replace('%s', '%s_.Get(i)' % n)))
            else:
                size.append('if (has_%s()) n += %s;' % (n, one.replace('%s', n + '_')))
            w('  static constexpr int k%sFieldNumber = %d;' % (camel(n), f['num']))
            if f['rep'] == 'repeated':
                rt = '::google::protobuf::Repeated%sField<%s>' % ('Ptr' if kind in ('msg', 'str') else '', ct)
                members.append('%s %s_;' % (rt, n))
                ref = ('const %s&' % ct) if kind in ('msg', 'str') else ct
                w('  int %s_size() const { return %s_.size(); }' % (n, n))
                w('  void clear_%s() { %s_.Clear(); }' % (n, n))
                w('  %s %s(int i) const { return %s_.Get(i); }' % (ref, n, n))
                w('  const %s& %s() const { return %s_; }' % (rt, n, n))
                w('  %s* mutable_%s() { return &%s_; }' % (rt, n, n))
                if kind in ('msg', 'str'):
                    w('  %s* mutable_%s(int i) { return %s_.Mutable(i); }' % (ct, n, n))
                    w('  %s* add_%s() { return %s_.Add(); }' % (ct, n, n))
                if kind != 'msg':
                    w('  void set_%s(int i, %s v) { *%s_.Mutable(i) = v; }' % (n, ref, n))
                    w('  void add_%s(%s v) { %s_.Add(v); }' % (n, ref, n))
                clear.append('%s_.Clear();' % n)
                merge.append('%s_.MergeFrom(o.%s_);' % (n, n))
                continue
            if kind == 'msg':
                dv = ''
            elif kind == 'str':
                dv = ' = %s' % (f['dflt'] or '""')
            elif kind == 'enum':
                first = dict((k, k) for k, _ in vals).get(f['dflt']) or vals[0][0]
                dv = ' = %s%s' % ((ct + '_') if '_' in ct else '', first)
            else:
                d = f['dflt'] or ('false' if ct == 'bool' else '0')
                if d in ('inf', '-inf', 'nan'):
                    d = {'inf': '__builtin_inf()', '-inf': '-__builtin_inf()', 'nan': '__builtin_nan("")'}[d]
                dv = ' = %s' % d
            o = in_one.get(n)
            has = '(case_%s_ == %d)' % (o, f['num']) if o else 'has_%s_' % n
            mark = 'case_%s_ = %d;' % (o, f['num']) if o else 'has_%s_ = true;' % n
            unmark = 'if (case_%s_ == %d) case_%s_ = 0;' % (o, f['num'], o) if o else 'has_%s_ = false;' % n
            members.append('%s %s_%s;' % (ct, n, dv))
            if not o:
                members.append('bool has_%s_ = false;' % n)
            w('  bool has_%s() const { return %s; }' % (n, has))
            if kind == 'msg':
                reset = '%s_.Clear();' % n
                w('  const %s& %s() const { %sreturn %s_; }' % (ct, n, 'if (!%s) return %s::default_instance(); ' % (has, ct) if o else '', n))
                w('  %s* mutable_%s() { %s%s return &%s_; }' % (ct, n, 'if (!%s) %s_.Clear(); ' % (has, n) if o else '', mark, n))
                w('  void set_allocated_%s(%s* p) { if (p) { *mutable_%s() = *p; delete p; } else clear_%s(); }' % (n, ct, n, n))
                mg = 'if (o.has_%s()) mutable_%s()->MergeFrom(o.%s_);' % (n, n, n)
            else:
                reset = '%s_%s;' % (n, dv)
                ref = 'const std::string&' if kind == 'str' else ct
                if o:
                    w('  %s %s() const { static const %s d%s; return %s ? %s_ : d; }' % (ref, n, ct, dv, has, n)) if kind == 'str' else \
                        w('  %s %s() const { if (%s) return %s_; %s d%s; return d; }' % (ct, n, has, n, ct, dv))
                else:
                    w('  %s %s() const { return %s_; }' % (ref, n, n))
                w('  void set_%s(%s v) { %s_ = v; %s }' % (n, ref, n, mark))
                if kind == 'str':
                    w('  std::string* mutable_%s() { %s%s return &%s_; }' % (n, 'if (!%s) %s_.clear(); ' % (has, n) if o else '', mark, n))
                mg = 'if (o.has_%s()) set_%s(o.%s_);' % (n, n, n)
            w('  void clear_%s() { %s%s%s }' % (n, '' if o else reset + ' ', unmark, ''))
            clear.append('clear_%s();' % n)
            merge.append(mg)
        for o, _ in m.oneofs:
            members.append('int case_%s_ = 0;' % o)
        w('  void Clear() { %s }' % ' '.join(clear))
        w('  void MergeFrom(const %s& o) { %s }' % (full, ' '.join(merge)))
        w('  void CopyFrom(const %s& o) { if (&o != this) *this = o; }' % full)
        w('  void Swap(%s* o) { %s t = *o; *o = *this; *this = t; }' % (full, full))
        w('  %s* New() const { return new %s(); }' % (full, full))
        w('  size_t ByteSizeLong() const { size_t n = 0; %s return n; }' % ' '.join(size))
        w('  bool IsInitialized() const { return true; }')
        w('  std::string DebugString() const { return "<%s>"; }' % full)
        w('  std::string ShortDebugString() const { return "<%s>"; }' % full)
        w('  std::string GetTypeName() const { return "%s.%s"; }' % (P.pkg, full))
        w(' private:')
        for x in members:
            w('  ' + x)
        w('};')

    def full_scopes(scope):
        r = []
        p = ''
        for s in scope:
            p = (p + '_' + s.name) if p else s.name
            r.append((p, s))
        return r
    for m in top.msgs:
        w('class %s;' % m.name)
    enums(Msg(''), '')
    for n, vals in top.enums:
        mm = Msg('')
        mm.enums = [(n, vals)]
        enums(mm, '')
    for m in top.msgs:
        msg(m, '', [])
    for n in [x for x in P.pkg.split('.') if x]:
        w('}')
    w('#endif')
    return '\n'.join(out) + '\n'


def generate(repo, outdir):
    made = []
    for root, dirs, files in os.walk(repo):
        dirs[:] = [d for d in dirs if not d.startswith(('.', '_'))]
        for f in files:
            if f.endswith('.proto'):
                rel = os.path.relpath(os.path.join(root, f), repo)
                dst = os.path.join(outdir, rel.replace('.proto', '.pb.h'))
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                with open(dst, 'w') as h:
                    h.write(gen(os.path.join(root, f), rel))
                made.append(rel)
    return made


if __name__ == '__main__':
    import sys
    print(generate(sys.argv[1], sys.argv[2]))
