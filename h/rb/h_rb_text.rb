# Tokenizers, filters and analyzers as Ruby sees them, written in C and in Ruby, alone and while an index is written.
require_relative 'harness'
require 'ferret'
include Ferret
include Ferret::Analysis

Tk = Struct.new(:text, :s, :e, :inc)

# words of which case and class are known; anything may stand between them
WORDS = %w(a b the The and AND word Word o'neil x-ray rock-and-roll B2B 42 3.14 été ÉTÉ naïve Ñandú 日本 ab_c wi-fi e-mail running ponies I.B.M. AT&T q@x.org zz)
SPACES = [' ', '  ', "\t", "\n", "\r\n", ' , ', '. ', '; ', ' - ', '!', '(', ') ']

def text(ascii)
  ws = ascii ? WORDS.select(&:ascii_only?) : WORDS
  n = H.pick([0, 1, 2, 3, 5, 9, 20])
  t = (H.one(4) ? H.pick(SPACES) : '').dup
  n.times {|i| t << H.pick(ws); t << H.pick(SPACES) unless i == n - 1 && H.one(2) }
  t << 'x' * 60 if H.one(30)
  t
end

# byte offsets of what a pattern finds
def scan(t, re)
  out = []; at = 0
  while (m = re.match(t, at))
    s = m.pre_match.bytesize
    out << Tk.new(m[0], s, s + m[0].bytesize, 1)
    at = m.end(0)
  end
  out
end

# a stream and a filter written in Ruby
class OwnStream < TokenStream
  def initialize(t) self.text = t end
  def text=(t) @t = t.b; @i = 0 end
  def text() @t end
  def next
    m = /[^ ]+/n.match(@t, @i) or return nil
    @i = m.end(0)
    Token.new(m[0], m.begin(0), m.end(0), m[0] =~ /\d/ ? 2 : 1)
  end
end
class OwnFilter < TokenStream
  def initialize(s) @s = s end
  def text=(t) @s.text = t.dup.force_encoding('UTF-8') end     # C hands bytes over
  def text() @s.text end
  def initialize_copy(o) super; @s = @s.clone end
  def next
    t = @s.next or return nil
    Token.new(t.text + '+', t.start, t.end, t.pos_inc)
  end
end
def own(t) scan(t.b, /[^ ]+/n).map {|k| k.inc = 2 if k.text =~ /\d/; k } end

RES = [/[a-z]+/i, /\w+/, /[^ ]+/, /\d+|[a-zA-Z]/, /[A-Za-z]+(?:'[A-Za-z]+)?/, /[[:alpha:]]+/, /(a|b|the)/, /x/]

# [the stream, what it gives for a text, whether the text has to be ascii]
def stream(t, ascii)
  case H.r(8)
  when 0 then ['asciiletter', AsciiLetterTokenizer.new(t), lambda {|x| scan(x.b, /[A-Za-z]+/n) }]
  when 1 then ['asciispace', AsciiWhiteSpaceTokenizer.new(t), lambda {|x| scan(x.b, /[^ \t\n\v\f\r]+/n) }]
  when 2 then low = H.one(2); ['space', WhiteSpaceTokenizer.new(t, low), lambda {|x| scan(x, /[^ \t\n\v\f\r]+/).each {|k| k.text = k.text.downcase if low } }]
  when 3 then low = H.one(2); ['letter', LetterTokenizer.new(t, low), lambda {|x| scan(x, /[[:alpha:]]+/).each {|k| k.text = k.text.downcase if low } }]
  when 4 then ['own', OwnStream.new(t), lambda {|x| own(x) }]
  when 5 then re = H.pick(RES); ["regexp #{re.source}", RegExpTokenizer.new(t, re), lambda {|x| scan(x, re) }]
  when 6 then re = H.pick(RES); ["regexp #{re.source} with a block", RegExpTokenizer.new(t, re) {|w| "<#{w}>" }, lambda {|x| scan(x, re).each {|k| k.text = "<#{k.text}>" } }]
  else ['space', WhiteSpaceTokenizer.new(t), lambda {|x| scan(x, /[^ \t\n\v\f\r]+/) }]
  end
end

MAPS = [{'a' => 'b', 'b' => 'a'}, {['a', 'b'] => 'q', 'th' => 'd'}, {:x => :yy, 'and' => '&'}, {'e' => ''}]
def map_text(w, m)
  h = {}
  m.each {|k, v| (k.is_a?(Array) ? k : [k]).each {|f| h[f.to_s] = v.to_s } }
  w.b.gsub(Regexp.union(h.keys.sort_by {|k| -k.size }.map(&:b))) {|x| h[x].b }
end

def filter(s)
  case H.r(6)
  when 0 then ['asciilower', AsciiLowerCaseFilter.new(s), lambda {|ts| ts.each {|k| k.text = k.text.b.tr('A-Z', 'a-z') } }]
  when 1 then ['lower', LowerCaseFilter.new(s), lambda {|ts| ts.each {|k| k.text = k.text.dup.force_encoding('UTF-8').downcase } }]
  when 2
    ws = H.pick([%w(a the), %w(The zz 42), [], %w(and)])
    ['stop', StopFilter.new(s, ws), lambda {|ts| add = 0; ts.select {|k| if ws.include?(k.text.dup.force_encoding('UTF-8')) then add += k.inc; false else k.inc += add; add = 0; true end } }]
  when 3 then m = H.pick(MAPS); ["map #{m.inspect}", MappingFilter.new(s, m), lambda {|ts| ts.each {|k| k.text = map_text(k.text, m) } }]
  when 4 then ['ownfilter', OwnFilter.new(s), lambda {|ts| ts.each {|k| k.text = k.text.b + '+' } }]
  else ['lower', LowerCaseFilter.new(s), lambda {|ts| ts.each {|k| k.text = k.text.dup.force_encoding('UTF-8').downcase } }]
  end
end

def drain(s, limit = nil)
  out = []
  while (limit.nil? || out.size < limit) && (t = s.next)
    out << Tk.new(t.text, t.start, t.end, t.pos_inc)
    H.check(out.size < 5000, 'rb-token-endless', 'the stream does not end')
  end
  out
end
def same(want, got, name, t)
  w = want.map {|k| [k.text.b, k.s, k.e, k.inc] }
  g = got.map {|k| [k.text.b, k.s, k.e, k.inc] }
  H.count('tokens', g.size)
  H.check(w == g, 'rb-tokens', "#{name} on #{t.inspect}: want #{(w - g).first(4).inspect} of #{w.size}, got #{(g - w).first(4).inspect} of #{g.size}")
end

H.mode('rb_tokens') do
  ascii = H.one(2)
  t = text(ascii)
  name, s, model = stream(t, ascii)
  fs = []
  H.r(4).times { n, s, f = filter(s); name = "#{n}(#{name})"; fs << f }
  H.note("#{name} on #{t.inspect}"); H.sig(name, t)
  full = lambda {|x| fs.inject(model.call(x)) {|a, f| f.call(a) } }
  want = full.call(t)
  H.nontrivial(want.size > 1)
  H.sample("#{name}: #{want.size} tokens")
  if H.one(4)
    lim = H.r(4); same(want.first(lim), drain(s, lim), name, t)
  else
    same(want, drain(s), name, t)
    H.check(s.next.nil?, 'rb-token-after-end', "#{name} gives a token after its end")
  end
  H.r(3).times do
    GC.start if H.one(4)
    t = text(ascii); s.text = t; H.count('texts_set')
    same(full.call(t), drain(s), "#{name}, used before,", t)
  end
  # tokens: order, and what is set is what is got
  mk = lambda {|k| Token.new(k[0], k[1], k[2], k[3]) }
  a, b = 2.times.map { [H.pick(%w(a ab b)), H.r(3), H.r(3) + 3, H.r(3)] }
  ta, tb = mk.call(a), mk.call(b)
  H.eq([a[1], a[2], a[0]] <=> [b[1], b[2], b[0]], (ta <=> tb) <=> 0, 'rb-token-order', "#{a.inspect} <=> #{b.inspect}")
  ta.text = b[0]; ta.start = b[1]; ta.end = b[2]; ta.pos_inc = b[3]
  H.eq(b, [ta.text, ta.start, ta.end, ta.pos_inc], 'rb-token-fields', 'a token')
end

# analyzers; what they give is also what is indexed
class OwnAnalyzer
  def initialize(&b) @b = b end
  def token_stream(f, t) @b.call(f, t) end
end
def analyzer
  low = [true, false][H.r(2)]
  dc = lambda {|x| x.each {|k| k.text = k.text.dup.force_encoding('UTF-8').downcase } }
  adc = lambda {|x| x.each {|k| k.text = k.text.b.tr('A-Z', 'a-z') } }
  case H.r(8)
  when 0 then ['asciiletter', AsciiLetterAnalyzer.new(low), lambda {|f, x| y = scan(x.b, /[A-Za-z]+/n); low ? adc.call(y) : y }]
  when 1 then ['letter', LetterAnalyzer.new(low), lambda {|f, x| y = scan(x, /[[:alpha:]]+/); low ? dc.call(y) : y }]
  when 2 then ['asciispace', AsciiWhiteSpaceAnalyzer.new(low), lambda {|f, x| y = scan(x.b, /[^ \t\n\v\f\r]+/n); low ? adc.call(y) : y }]
  when 3 then ['space', WhiteSpaceAnalyzer.new(low), lambda {|f, x| y = scan(x, /[^ \t\n\v\f\r]+/); low ? dc.call(y) : y }]
  when 4 then re = H.pick(RES); ["regexp #{re.source}", RegExpAnalyzer.new(re, low), lambda {|f, x| y = scan(x, re); low ? dc.call(y) : y }]
  when 5 then re = H.pick(RES); ["regexp #{re.source} with a block", RegExpAnalyzer.new(re, false) {|w| w + '!' }, lambda {|f, x| scan(x, re).each {|k| k.text += '!' } }]
  when 6 then ['own', OwnAnalyzer.new {|f, x| OwnStream.new(x) }, lambda {|f, x| own(x) }]
  else ['own of both', OwnAnalyzer.new {|f, x| OwnFilter.new(LowerCaseFilter.new(WhiteSpaceTokenizer.new(x))) }, lambda {|f, x| dc.call(scan(x, /[^ \t\n\v\f\r]+/)).each {|k| k.text += '+' } }]
  end
end

H.mode('rb_analyzers') do
  name, a, model = analyzer
  if H.one(3)
    n2, a2, m2 = analyzer
    pfa = PerFieldAnalyzer.new(a)
    H.one(2) ? (pfa[:g] = a2) : pfa.add_field(:g, a2)
    m1 = model
    a, name, model = pfa, "#{name}, for g #{n2}", lambda {|f, x| (f == :g ? m2 : m1).call(f, x) }
  end
  ascii = H.one(2)
  docs = (1 + H.r(6)).times.map { [:f, :g].map {|f| [f, text(ascii)] }.to_h }
  H.note("#{name} on #{docs.inspect}"); H.sig(name, docs.inspect)
  docs.each {|d| d.each {|f, x| s = a.token_stream(f, x); GC.start if H.one(20); same(model.call(f, x), drain(s), "#{name} for #{f}", x) } }
  dir = Store::RAMDirectory.new
  fis = Index::FieldInfos.new(:term_vector => :with_positions_offsets)
  w = Index::IndexWriter.new(:dir => dir, :analyzer => a, :field_infos => fis, :create => true)
  docs.each {|d| w << d; GC.start if H.one(20) }
  w.close
  r = Index::IndexReader.new(dir)
  total = 0
  [:f, :g].each do |f|
    want = Hash.new {|h, k| h[k] = Hash.new {|h2, k2| h2[k2] = [] } }
    docs.each_with_index do |d, i|
      pos = -1
      model.call(f, d[f]).each {|k| pos += k.inc; total += 1; want[k.text.b][i] << [pos, k.s, k.e] }
    end
    got = {}
    te = r.terms(f)
    while te.next?
      t = te.term.b
      got[t] = {}
      tde = r.term_positions_for(f, t)
      while tde.next?
        ps = []
        H.one(2) ? tde.each_position {|x| ps << x } : tde.freq.times { ps << tde.next_position }
        H.check(ps.size == tde.freq, 'rb-freq', "#{name}: #{t.inspect} in #{tde.doc}: #{ps.size} positions, freq #{tde.freq}")
        got[t][tde.doc] = ps
      end
      H.eq(want[t].size, te.doc_freq, 'rb-df', "#{name}: doc_freq of #{t.inspect}") if want.key?(t)
    end
    wt = want.sort.map {|t, ds| [t, ds.map {|d, ps| [d, ps.map(&:first)] }.sort] }
    gt = got.sort.map {|t, ds| [t, ds.sort.map {|d, ps| [d, ps] }] }
    H.check(wt == gt, 'rb-indexed', "#{name}, field #{f}: want #{(wt - gt).first(3).inspect}, got #{(gt - wt).first(3).inspect}")
    docs.each_index do |i|
      tv = r.term_vector(i, f) or next
      g = tv.terms.map {|x| [x.text.b, x.positions] }.to_h
      wv = want.select {|t, ds| ds.key?(i) }.map {|t, ds| [t, ds[i].map(&:first)] }.to_h
      H.eq(wv, g, 'rb-vector', "#{name}, the vector of #{f} in document #{i}")
      ofs = want.values.flat_map {|ds| ds.key?(i) ? ds[i] : [] }.sort.map {|p, s, e| [s, e] }
      go = tv.offsets.map {|o| [o.start, o.end] }
      H.eq(ofs.uniq, go.compact.uniq & ofs, 'rb-offsets', "#{name}, the offsets of #{f} in document #{i}")
    end
  end
  r.close
  H.nontrivial(total > 2); H.count('documents', docs.size); H.count('positions', total)
  H.sample("#{name}: #{total} positions in #{docs.size} documents")
end

H.run
