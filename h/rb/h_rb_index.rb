require_relative 'harness'
require 'ferret'
include Ferret

# C25: histories of the Ruby Index class against a list of documents.

WORDS = %w(alpha beta gamma delta kappa sigma omega zeta theta rho phi chi)
ANA = Analysis::WhiteSpaceAnalyzer

class Model
  attr_reader :docs, :cfg, :low
  def initialize(cfg) @docs, @cfg, @low = [], cfg, {}.compare_by_identity end       # docs: arrays of [fields]
  def norm(doc)
    h = {}
    doc.each do |k, v|
      h[k.to_sym] = v.is_a?(Array) ? (v.size == 1 ? v[0].to_s.b : v.map {|x| x.to_s.b }) : v.to_s.b
    end
    h
  end
  def keyval(d)
    ks = [cfg[:key]].flatten.compact.map {|k| k.to_sym }
    return nil if ks.empty? || ks.any? {|k| d[k].nil? }
    ks.map {|k| d[k] }
  end
  def add(doc, keyed = true, low = false)
    d = norm(doc)
    if keyed && (k = keyval(d))
      @docs.reject! {|o| keyval(o) == k }
    end
    @docs << d
    @low[d] = true if low
  end
  def terms(d, f)
    v = d[f]
    return [] if v.nil?
    vs = v.is_a?(Array) ? v : [v]
    untok?(f) ? vs : vs.flat_map {|x| (@low[d] ? x.downcase : x).split }
  end
  def untok?(f) cfg[:untok].include?(f) end
  def match(f, t)
    @docs.select {|d| terms(d, f).include?(t.b) }
  end
  def match_any(t)
    @docs.select {|d| d.keys.any? {|f| terms(d, f).include?(t.b) } }
  end
end

class Gen
  def initialize(cfg) @cfg, @uid = cfg, 0 end
  def text
    ws = (0...H.r(8)).map { w = H.pick(WORDS); H.one(5) ? w.capitalize : w }
    H.one(6) ? ws.join("  ") : ws.join(' ')
  end
  def value
    case H.r(12)
    when 0 then (0...(1 + H.r(3))).map { text }
    when 1 then H.r(1000)
    when 2 then H.pick(WORDS).to_sym
    when 3 then nil
    when 4 then 'x' * H.r(3000)
    when 5 then Field.new([text, text], 1.5)
    when 6 then "é\u4e16 #{text}"
    else text
    end
  end
  def id() "k#{H.r(@cfg[:ids])}" end
  def kind() H.pick(%w(x y)) end
  def type() H.pick(%w(ta tb)) end
  def doc(id = self.id)
    @uid += 1
    d = H.one(8) ? Document.new(H.one(2) ? 2.0 : 1.0) : {}
    d[:uid] = "u#{@uid}"
    d[@cfg[:idf]] = H.one(6) ? id.to_sym : id unless id.nil?
    d[:type] = type
    d[:kind] = kind if @cfg[:kinds]
    (1 + H.r(3)).times { d[H.pick([:title, :body, :f1, :f2, :f3])] = value }
    d
  end
  def last_uid() "u#{@uid}" end
end

def open_index(cfg, dir_opts, create)
  o = {:analyzer => cfg[:ana].new, :max_buffered_docs => cfg[:mbd], :merge_factor => cfg[:mf],
       :use_compound_file => cfg[:cmp], :auto_flush => cfg[:af]}
  o[:key] = cfg[:key] if cfg[:key]
  o[:id_field] = cfg[:idf] if cfg[:set_idf]
  o[:default_input_field] = :body if cfg[:dif]
  if cfg[:fis]
    fis = Index::FieldInfos.new(:store => cfg[:store])
    cfg[:untok].each {|f| fis.add_field(f, :index => :untokenized) }
    o[:field_infos] = fis
  end
  o[:create] = true if create
  Index::Index.new(o.merge(dir_opts))
end

def flat(v) v.is_a?(Array) ? v.map {|x| x.b } : v.b end

def compare(ix, m, what)
  H.count('full comparisons')
  got = []
  ix.each {|d| h = {}; d.each {|k, v| h[k] = flat(v) }; got << h }
  H.eq(m.docs.size, ix.size, 'size', "#{what}: size")
  want = m.docs.sort_by {|d| d[:uid] || d.inspect }
  got = got.sort_by {|d| d[:uid] || d.inspect }
  if want != got
    i = (0...[want.size, got.size].max).find {|j| want[j] != got[j] }
    H.fail!('documents', "#{what}: documents differ, e.g. want #{want[i].inspect[0, 300]} got #{got[i].inspect[0, 300]} (#{want.size}/#{got.size})")
  end
end

def uids(ix, q)
  r = []
  n = ix.search_each(q, :limit => :all) {|n, s| r << ix[n][:uid].to_s.b }
  [n, r.sort]
end

def num_of(ix, d)
  r = []
  ix.search_each(Search::TermQuery.new(:uid, d[:uid]), :limit => :all) {|n, s| r << n }
  H.eq(1, r.size, 'uid-search', "documents with uid #{d[:uid]}")
  r[0]
end

def reads(ix, m)
  case H.r(10)
  when 0 then H.eq(m.docs.size, ix.size, 'size', 'size')
  when 1, 2
    w = H.pick(WORDS)
    w = w.capitalize if H.one(4)
    f = H.pick([:title, :body, :f1])
    want = m.match(f, w).map {|d| d[:uid].to_s }.sort
    q = H.one(2) ? "#{f}:#{w}" : Search::TermQuery.new(f, w)
    n, got = uids(ix, q)
    H.eq(want, got, 'search', "#{f}:#{w}")
    H.eq(want.size, n, 'search-total', "#{f}:#{w}")
    t = ix.search(q, :limit => :all)
    H.eq(want.size, t.total_hits, 'search-total', "#{f}:#{w}")
    H.eq(want, t.hits.map {|h| ix[h.doc][:uid].to_s.b }.sort, 'search-hits', "#{f}:#{w}")
    H.eq(want, ix.scan(q).map {|x| ix[x][:uid].to_s.b }.sort, 'scan', "#{f}:#{w}")
    H.count('searches')
    H.nontrivial if !want.empty?
  when 3
    w = H.pick(WORDS)
    w = w.capitalize if H.one(4)
    want = m.match_any(w).map {|d| d[:uid].to_s }.sort
    n, got = uids(ix, w)
    H.eq(want, got, 'search-all-fields', w)
    H.count('searches')
  when 4
    id = "k#{H.r(m.cfg[:ids])}"
    want = m.match(m.cfg[:idf], id)
    got = ix[H.one(2) ? id : id.to_sym]
    if want.empty?
      H.eq(nil, got, 'doc-by-id', "doc(#{id})")
    else
      H.check(got, 'doc-by-id', "doc(#{id}) is nil, wanted one of #{want.map {|d| d[:uid]}.inspect}")
      h = {}
      got.load.each {|k, v| h[k] = flat(v) }
      H.check(want.include?(h), 'doc-by-id') { "doc(#{id}) is #{h.inspect[0, 400]}" }
    end
  when 5
    unless m.docs.empty?
      d = H.pick(m.docs)
      return if d[:uid].nil?
      n = num_of(ix, d)
      H.eq(false, ix.deleted?(n), 'deleted', "deleted?(#{n}) of a live document")
      f = H.pick(d.keys)
      doc = ix[n]
      H.eq(d[f], flat(doc[f]), 'lazy-field', "document #{d[:uid]} field #{f}")
      H.eq(d.keys.sort, doc.fields.sort, 'fields', "document #{d[:uid]} fields")
      H.eq(nil, doc[:nosuch], 'lazy-field', "missing field")
    end
  when 6
    H.eq(m.docs.size, ix.to_s.lines.size, 'to_s', 'documents shown by to_s') if ENV['TOS']
  when 7
    del = (0...ix.reader.max_doc).select {|i| ix.deleted?(i) }.size
    H.eq(del > 0, ix.has_deletions?, 'has-deletions', 'has_deletions?')
    H.eq(m.docs.size, ix.reader.max_doc - del, 'deleted-count', 'max_doc - deleted')
  when 8
    d = m.docs.empty? ? nil : H.pick(m.docs)
    if d && d[:uid] && m.match(m.cfg[:idf], d[m.cfg[:idf]].to_s).size == 1 && d[m.cfg[:idf]]
      f = H.pick(d.keys)
      tv = ix.term_vector(d[m.cfg[:idf]], f)
      want = m.terms(d, f).map {|t| t.b[0, 254] }.uniq.sort
      got = tv ? tv.terms.map {|t| t.text.b } : []
      H.eq(want, got, 'term-vector', "term vector of #{f} in #{d[:uid]}") if d[f].to_s.bytesize < 250
    end
  else
    compare(ix, m, 'read')
  end
end

def small_index(gen, n, cfg)
  fis = Index::FieldInfos.new(:store => cfg[:store])
  o = Index::Index.new(:analyzer => ANA.new, :field_infos => fis)
  ds = (0...n).map { gen.doc }
  ds.each {|d| o << d }
  [o, ds]
end

H.mode('rb_index') do
  cfg = {}
  cfg[:fs] = H.one(2)
  cfg[:af] = H.one(2)
  cfg[:mbd] = H.pick([2, 3, 10, 100])
  cfg[:mf] = H.pick([2, 3, 10])
  cfg[:cmp] = !H.one(3)
  cfg[:ana] = ANA
  cfg[:key] = H.pick([nil, :id, :id, :pk, [:id, :type], ['id', 'type'], [:id], [:id, :type, :kind]])
  cfg[:kinds] = [cfg[:key]].flatten.size > 2 || H.one(4)
  cfg[:ids] = H.one(4) ? 60 : 8
  cfg[:idf] = cfg[:key] == :pk ? :pk : :id
  if cfg[:key].nil? && H.one(2)
    cfg[:idf] = :ref
    cfg[:set_idf] = true
  end
  cfg[:fis] = H.one(2)
  cfg[:untok] = cfg[:fis] ? [cfg[:idf], :type, :kind, :uid] : []
  cfg[:store] = cfg[:fis] ? H.pick([:yes, :yes, :compressed]) : :yes
  cfg[:dif] = H.one(2)
  m = Model.new(cfg)
  gen = Gen.new(cfg)
  path = cfg[:fs] ? H.dir : nil
  ram = cfg[:fs] ? nil : (H.one(2) ? Store::RAMDirectory.new : nil)
  dopts = lambda { path ? {(H.one(2) ? :path : :dir) => path} : ram ? {:dir => ram} : {} }
  H.note "config #{cfg.inspect}"
  H.sig(cfg.values_at(:fs, :af, :mbd, :mf, :cmp, :key, :fis, :store).inspect)
  ixs = [open_index(cfg, dopts.call, true)]
  # several processes may share a directory when every write is flushed
  ixs << open_index(cfg, dopts.call, false) if cfg[:af] && (path || ram) && H.one(2)
  if cfg[:ids] > 8            # many documents that one query finds
    (12 + H.r(40)).times { d = gen.doc(gen.id); ixs[0] << d; m.add(d) }
    H.note "#{m.docs.size} documents at first"; H.count('large starts')
  end
  nops = 8 + H.r(40)
  nops.times do |step|
    ix = H.pick(ixs)
    op = H.r(26)
    H.sig(op)
    case op
    when 0..5
      d = gen.doc(H.one(12) ? nil : gen.id)
      H.note "#{ixs.index(ix)}: add #{d.inspect[0, 200]}"
      low = H.one(5)
      if low then ix.add_document(d, ANA.new(true)) else ix << d end
      GC.start if H.one(30)
      m.add(d, true, low)
      H.count('adds')
    when 6
      if cfg[:dif] || cfg[:key].nil?
        f = cfg[:dif] ? :body : cfg[:idf]
        v = H.one(2) ? gen.text + ' pi' : [gen.text, 'tau']
        if cfg[:untok].include?(f) || f != :body
          next
        end
        H.note "add #{v.inspect}"
        ix << v
        m.add({f => v})
      end
    when 7
      id = gen.id
      H.note "#{ixs.index(ix)}: delete #{id}"
      ix.delete(H.one(2) ? id : id.to_sym)
      m.docs.reject! {|d| m.terms(d, cfg[:idf]).include?(id.b) }
    when 8
      d = m.docs.empty? ? nil : H.pick(m.docs)
      if d && d[:uid]
        n = num_of(ix, d)
        H.note "#{ixs.index(ix)}: delete number #{n} (#{d[:uid]})"
        ix.delete(n)
        m.docs.delete(d)
      end
    when 9
      ids = (0...(1 + H.r(3))).map { gen.id }
      ds = H.one(2) ? m.docs.sample(H.r(3), random: H.rng).select {|d| d[:uid] } : []
      nums = ds.map {|d| num_of(ix, d) }
      arg = (ids.map {|i| H.one(3) ? i.to_sym : i } + nums).shuffle(random: H.rng)
      arg = arg.each_with_object({}) {|k, h| h[k] = 1 } if H.one(3)
      H.note "#{ixs.index(ix)}: delete #{arg.inspect}"
      ix.delete(arg)
      m.docs.reject! {|d| ds.include?(d) || ids.any? {|i| m.terms(d, cfg[:idf]).include?(i.b) } }
    when 10
      f, w = H.pick([:title, :body, :f1]), H.pick(WORDS)
      f, w = :type, 'ta' if H.one(5)
      q = H.one(2) ? "#{f}:#{w}" : Search::TermQuery.new(f, w)
      H.note "#{ixs.index(ix)}: query_delete #{f}:#{w}"
      gone = m.match(f, w)
      ix.query_delete(q)
      m.docs.reject! {|d| gone.include?(d) }
    when 11, 12
      id = gen.id
      d = gen.doc(id)
      H.note "#{ixs.index(ix)}: update #{id} #{d.inspect[0, 200]}"
      ix.update(H.one(2) ? id : id.to_sym, d)
      m.docs.reject! {|x| m.terms(x, cfg[:idf]).include?(id.b) }
      m.add(d, false)
      H.count('updates')
    when 13
      o = m.docs.empty? ? nil : H.pick(m.docs)
      if o && o[:uid] && o[cfg[:idf]]
        d = gen.doc(o[cfg[:idf]])
        d[:type] = o[:type]
        n = num_of(ix, o)
        H.note "#{ixs.index(ix)}: update number #{n} (#{o[:uid]}) #{d.inspect[0, 200]}"
        ix.update(n, d)
        m.docs.delete(o)
        m.add(d, false)
        H.count('updates')
      end
    when 14
      ids = (0...(1 + H.r(3))).map { gen.id }.uniq
      ds = ids.map {|i| gen.doc(i) }
      arg = ds
      arg = Hash[ids.zip(ds)] if H.one(2)
      H.note "#{ixs.index(ix)}: batch_update #{arg.inspect[0, 300]}"
      ix.batch_update(arg)
      m.docs.reject! {|d| ids.any? {|i| m.terms(d, cfg[:idf]).include?(i.b) } }
      ds.each {|d| m.add(d, false) }
      H.count('updates')
    when 15
      f, w = H.pick([:title, :body, :f1]), H.pick(WORDS)
      f, w = :type, 'tb' if H.one(3)
      hit = m.match(f, w)
      if H.one(4) && cfg[:dif]
        nv, ch = 'lambda mu', {:body => 'lambda mu'.b}
      else
        ch = nv = {:f2 => gen.text.b, :f3 => 'nu'.b}
      end
      H.note "#{ixs.index(ix)}: query_update #{f}:#{w} #{nv.inspect}"
      ix.query_update("#{f}:#{w}", nv)
      hit.each {|d| d.merge!(ch); m.low.delete(d) }
      H.count('query updates') unless hit.empty?
    when 16
      H.note "#{ixs.index(ix)}: flush"
      H.one(2) ? ix.flush : ix.commit
    when 17
      H.note "#{ixs.index(ix)}: optimize"
      ix.optimize
    when 18
      if path || ram
        H.note "reopen"
        i = ixs.index(ix)
        ix.close
        ixs[i] = ix = open_index(cfg, dopts.call, false)
      end
    when 19
      o, ds = small_index(gen, 1 + H.r(4), cfg)
      H.note "#{ixs.index(ix)}: add_indexes of #{ds.map {|d| d[:uid]}.inspect}"
      case H.r(4)
      when 0 then ix.add_indexes(H.one(2) ? o : [o])
      when 1
        r = o.reader
        ix.add_indexes([r])
      when 2
        o.flush
        dd = H.dir
        o.persist(dd)
        o.close
        ix.add_indexes([Store::FSDirectory.new(dd)])
      when 3
        # what another object has added to that index since must come too
        dd = H.dir
        o.persist(dd)
        o.size
        q = Index::Index.new(:path => dd, :analyzer => ANA.new)
        d = gen.doc
        q << d
        q.close
        ds << d
        ix.add_indexes(H.one(2) ? o : [o])
      end
      ds.each {|d| m.add(d, false) }
      H.count('merged indexes')
    when 20
      begin
        H.pick([lambda { ix.delete(1.5) }, lambda { ix.delete([1.5]) }, lambda { ix.batch_update(3) },
                lambda { ix.batch_update([gen.doc, {:title => 'no id'}]) }]).call
        H.fail!('bad-argument', 'a bad argument was accepted')
      rescue ArgumentError
      end
    else
      reads(ix, m)
    end
    compare(ix, m, "after op #{op}") if H.one(7)
    reads(ix, m) if H.one(2)
    if ixs.size > 1 && H.one(3)
      reads(ixs[0], m)
      reads(ixs[1], m)
    end
  end
  if !path && ixs.size == 1 && H.one(2)
    pd = H.dir
    H.note 'persist'
    ixs[0].persist(pd, H.one(2) || true)
    compare(ixs[0], m, 'after persist')
    path, ram = pd, nil
    H.count('persisted')
  end
  ixs.each {|ix| compare(ix, m, 'at end') }
  ixs.each {|ix| ix.close }
  if path || ram
    ix = open_index(cfg, dopts.call, false)
    compare(ix, m, 'after reopening')
    ix.close
    begin
      ix.size
      H.fail!('closed-index', 'a closed index was usable')
    rescue RuntimeError, StandardError => e
      raise if e.is_a?(H::Failed)
    end
  end
  H.nontrivial(m.docs.size > 1)
  H.sample("#{cfg.inspect}, #{nops} operations, #{m.docs.size} documents at the end")
end

H.run
