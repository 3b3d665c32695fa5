require_relative 'harness'
require 'fiddle'
require 'ferret'
include Ferret
include Ferret::Search

# C26: a pool of wrapper objects. Entries are made from other entries, which may then be dropped and collected; every
# entry keeps answering what plain Ruby computed from the documents.

FFLUSH = Fiddle::Function.new(Fiddle::Handle::DEFAULT['fflush'], [Fiddle::TYPE_VOIDP], Fiddle::TYPE_INT)
W = %w(aa ab ba bb ca cb dd ee)

class OwnAnalyzer < Analysis::Analyzer
  def token_stream(field, text)
    Analysis::LowerCaseFilter.new(Analysis::StopFilter.new(Analysis::WhiteSpaceTokenizer.new(text), ['stop', 'halt']))
  end
end

class OwnTokenStream < Analysis::TokenStream
  def initialize(text) @w = text.split; @i = -1 end
  def text=(t) @w = t.split; @i = -1 end
  def next
    @i += 1
    @i < @w.size ? Analysis::Token.new(@w[@i].dup, @i * 3, @i * 3 + 2) : nil
  end
end

class OwnAnalyzer2 < Analysis::Analyzer
  def token_stream(field, text) OwnTokenStream.new(text) end
end

class OwnFilter
  def initialize(ok, n) @ok, @n = ok, n end
  def bits(ir)
    GC.start if H.one(4)
    H.check(ir.is_a?(Index::IndexReader) && ir.max_doc == @n, 'filter-reader') { "a filter was given #{ir.inspect}" }
    bv = Utils::BitVector.new
    @ok.each {|i| bv[i] = true }
    bv
  end
end

class Entry
  attr_reader :kind, :obj, :data
  def initialize(kind, obj, data) @kind, @obj, @data = kind, obj, data end
end

class GcRun
  def initialize
    @pool = []
    @corpora = []
    @stress = H.pick([4, 12, 12, 12, 30])
  end

  def corpus
    n = 2 + H.r(10)
    (0...n).map {|i| {:id => "d#{i}", :f => (0...(1 + H.r(6))).map { H.pick(W) }, :n => H.r(50)} }
  end

  def gc
    case H.r(6)
    when 0 then GC.start
    when 1 then GC.start(full_mark: false)
    when 2 then x = (0...200).map { 'x' * 40 }; x = nil; GC.start
    end
  end

  # runs a block with a collection at every allocation, when the dice say so
  def hot
    return yield unless H.one(@stress)
    H.count('operations under continuous collection')
    GC.stress = true
    begin
      yield
    ensure
      GC.stress = false
    end
  end

  def put(kind, obj, data) @pool << Entry.new(kind, obj, data) end
  def any(*kinds)
    c = @pool.select {|e| kinds.include?(e.kind) }
    c.empty? ? nil : H.pick(c)
  end

  def analyzer
    case H.r(6)
    when 0 then Analysis::WhiteSpaceAnalyzer.new
    when 1 then OwnAnalyzer.new
    when 2 then OwnAnalyzer2.new
    when 3
      a = Analysis::PerFieldAnalyzer.new(H.one(2) ? Analysis::WhiteSpaceAnalyzer.new : Analysis::RegExpAnalyzer.new(Regexp.new('[a-z0-9]' + '+')))
      return a if H.one(3)
      a[:f] = case H.r(3)
              when 0 then OwnAnalyzer.new
              when 1 then Analysis::StandardAnalyzer.new([])
              else Analysis::RegExpAnalyzer.new(Regexp.new('[a-z0-9]' + '+')) {|t| t.sub('@', 'a' * H.r(2)) }
              end
      a
    when 4
      re = Regexp.new('[a-z0-9]' + (H.one(2) ? '+' : '{1,9}'))
      x = 'a' * H.r(2)
      H.one(2) ? Analysis::RegExpAnalyzer.new(re, H.one(2)) : Analysis::RegExpAnalyzer.new(re, H.one(2)) {|t| t.sub('@', x) }
    else Analysis::StandardAnalyzer.new([])
    end
  end

  def make_index
    ds = corpus
    fis = Index::FieldInfos.new
    fis.add_field(:id, :index => :untokenized)
    fis.add_field(:n, :index => :untokenized)
    path = H.one(2) ? H.dir : nil
    dir = path ? Store::FSDirectory.new(path, true) : Store::RAMDirectory.new
    w = Index::IndexWriter.new(:dir => dir, :analyzer => analyzer, :field_infos => fis, :create => true,
                               :max_buffered_docs => H.pick([2, 3, 100]), :use_compound_file => H.one(2))
    fis = nil
    ds.each {|d| gc if H.one(6); hot { w << {:id => d[:id], :f => d[:f].join(' '), :n => '%03d' % d[:n]} } }
    w.optimize if H.one(4)
    w.close
    put(:dir, dir, {:docs => ds, :path => path})
  end

  # ---- queries with the documents they match
  def query(depth = 0)
    case H.r(depth > 2 ? 6 : 18)
    when 0, 1
      w = H.pick(W)
      [TermQuery.new(:f, w), lambda {|d| d[:f].include?(w) }]
    when 2
      p = w = H.pick(%w(a b c d))
      [PrefixQuery.new(:f, p), lambda {|d| d[:f].any? {|x| x.start_with?(w) } }]
    when 3
      c = H.pick(%w(a b))
      [WildcardQuery.new(:f, "?#{c}"), lambda {|d| d[:f].any? {|x| x[1] == c } }]
    when 4
      lo, hi = [H.pick(W), H.pick(W)].sort
      [RangeQuery.new(:f, :>= => lo, :<= => hi), lambda {|d| d[:f].any? {|x| x >= lo && x <= hi } }]
    when 5
      [MatchAllQuery.new, lambda {|d| true }]
    when 6, 7
      parts = (0...(1 + H.r(3))).map { [query(depth + 1), H.pick([:must, :should, :should, :must_not])] }
      parts << [query(depth + 1), :must] if parts.all? {|x, o| o == :must_not }
      bq = BooleanQuery.new
      parts.each {|(q, pr), o| H.one(2) ? bq.add_query(q, o) : bq << BooleanQuery::BooleanClause.new(q, o) }
      pr = parts.map {|(q, pr), o| [pr, o] }
      [bq, lambda {|d|
        pr.all? {|x, o| o == :must ? x.call(d) : o == :must_not ? !x.call(d) : true } &&
          (pr.any? {|x, o| o == :must } || pr.any? {|x, o| o == :should && x.call(d) }) }]
    when 8
      ws = (0...2).map { H.pick(W) }
      q = PhraseQuery.new(:f)
      ws.each {|x| q << x }
      [q, lambda {|d| d[:f].each_cons(2).any? {|x| x == ws } }]
    when 9
      ws = (0...(1 + H.r(3))).map { H.pick(W) }
      q = MultiTermQuery.new(:f)
      ws.each {|x| q << x }
      [q, lambda {|d| (d[:f] & ws).any? }]
    when 10
      f, pr = filter(depth + 1)
      [ConstantScoreQuery.new(f), pr]
    when 11
      q, p1 = query(depth + 1)
      f, p2 = filter(depth + 1)
      [FilteredQuery.new(q, f), lambda {|d| p1.call(d) && p2.call(d) }]
    when 12..15
      span(depth)
    when 16
      qp = QueryParser.new(:analyzer => analyzer, :default_field => :f, :fields => [:f, :id], :tokenized_fields => [:f])
      a, b = H.pick(W), H.pick(W)
      GC.start if H.one(3)
      [hot { qp.parse("#{a} AND NOT #{b}") }, lambda {|d| d[:f].include?(a) && !d[:f].include?(b) }]
    else
      [hot { FuzzyQuery.new(:f, 'aa', :min_similarity => 0.9) }, lambda {|d| d[:f].include?('aa') }]
    end
  end

  def span(depth)
    case H.r(depth > 1 ? 2 : 6)
    when 0, 1
      w = H.pick(W)
      [Spans::SpanTermQuery.new(:f, w), lambda {|d| d[:f].include?(w) }]
    when 2
      k = 1 + H.r(3)
      w = H.pick(W)
      [Spans::SpanFirstQuery.new(Spans::SpanTermQuery.new(:f, w), k), lambda {|d| d[:f][0, k].include?(w) }]
    when 3
      ws = [H.pick(W), H.pick(W)]
      if H.one(2)
        q = Spans::SpanOrQuery.new(ws.map {|w| Spans::SpanTermQuery.new(:f, w) })
      else
        q = Spans::SpanOrQuery.new
        ws.each {|w| q << Spans::SpanTermQuery.new(:f, w) }
      end
      [q, lambda {|d| (d[:f] & ws).any? }]
    when 4
      ws = W.sample(2, random: H.rng)
      q = Spans::SpanNearQuery.new(:in_order => true, :slop => 0, :clauses => ws.map {|w| Spans::SpanTermQuery.new(:f, w) })
      [q, lambda {|d| d[:f].each_cons(2).any? {|x| x == ws } }]
    else
      a, b = W.sample(2, random: H.rng)
      [Spans::SpanNotQuery.new(Spans::SpanTermQuery.new(:f, a), Spans::SpanTermQuery.new(:f, b)), lambda {|d| d[:f].include?(a) }]
    end
  end

  def filter(depth = 0)
    case H.r(3)
    when 0
      q, pr = query(depth + 2)
      [QueryFilter.new(q), pr]
    when 1
      lo, hi = [H.pick(W), H.pick(W)].sort
      [RangeFilter.new(:f, :>= => lo, :<= => hi), lambda {|d| d[:f].any? {|x| x >= lo && x <= hi } }]
    else
      lo = '%03d' % H.r(50)
      [RangeFilter.new(:n, :>= => lo), lambda {|d| '%03d' % d[:n] >= lo }]
    end
  end

  def sort
    f = case H.r(4)
        when 0 then SortField.new(:n, :type => :integer, :reverse => H.one(2))
        when 1 then SortField.new(:id, :type => :string)
        when 2 then :n
        else SortField::DOC_ID
        end
    H.one(2) ? Sort.new([f]) : Sort.new(f)
  end

  def step
    gc
    k = H.r(35)
    H.sig(k)
    case k
    when 0 then make_index if @pool.count {|e| e.kind == :dir } < 4
    when 1, 2
      if e = any(:dir)
        r = hot { H.one(3) && e.data[:path] ? Index::IndexReader.new(e.data[:path]) : Index::IndexReader.new(e.obj) }
        put(:reader, r, e.data[:docs])
      end
    when 3
      es = (0...2).map { any(:reader, :dir) }.compact
      if es.size == 2 && es.map(&:kind).uniq.size == 1
        r = hot { Index::IndexReader.new(es.map(&:obj)) }
        put(:mreader, r, es.flat_map {|e| e.kind == :dir ? e.data[:docs] : e.data })
      end
    when 4, 5
      if e = any(:dir, :reader, :mreader)
        ds = e.kind == :dir ? e.data[:docs] : e.data
        s = hot { Searcher.new(e.kind == :dir && e.data[:path] && H.one(2) ? e.data[:path] : e.obj) }
        put(:searcher, s, ds)
      end
    when 6
      es = (0...2).map { any(:searcher) }.compact
      if es.size == 2
        s = hot { H.one(2) ? MultiSearcher.new(es.map(&:obj)) : MultiSearcher.new(*es.map(&:obj)) }
        put(:msearcher, s, es.flat_map(&:data))
      end
    when 7, 8
      q, pr = query
      put(:query, q, pr)
    when 9
      f, pr = filter
      put(:filter, f, pr)
    when 10 then put(:sort, sort, nil)
    when 11..14
      se = any(:searcher, :searcher, :msearcher)
      qe = any(:query)
      search(se, qe) if se && qe
    when 15
      if e = any(:reader, :mreader)
        w = H.pick(W)
        H.count('enumerators')
        case H.r(4)
        when 0 then put(:tde, hot { e.obj.term_docs_for(:f, w) }, e.data.each_index.select {|i| e.data[i][:f].include?(w) })
        when 1 then put(:te, hot { e.obj.terms(:f) }, e.data.flat_map {|d| d[:f] }.uniq.sort)
        when 2 then i = H.r(e.data.size); put(:doc, hot { e.obj[i] }, e.data[i])
        else
          t = hot { e.obj.term_positions_for(:f, w) }
          put(:tpe, t, e.data.each_index.flat_map {|i| e.data[i][:f].each_index.select {|j| e.data[i][:f][j] == w }.map {|j| [i, j] } })
        end
      end
    when 25
      q, pr = query(2)
      str = q.to_s
      c = hot { BooleanQuery::BooleanClause.new(q, H.pick([:must, :should])) }
      if H.one(3)
        q, pr = query(2)
        str = q.to_s
        hot { c.query = q }
      end
      put(:clause, c, [str, pr])
    when 26
      n = 1 + H.r(3)
      fs = (0...n).map {|i| SortField.new("f#{H.r(4)}".to_sym, :type => H.pick([:integer, :string, :float]), :reverse => H.one(2)) }
      put(:sortf, hot { Sort.new(fs.dup) }, fs.map(&:to_s))
    when 27
      t = (0...6).map { H.pick(W) }
      re = Regexp.new('[a-f]' + ['+', '{2}', '{1,3}'].sample(random: H.rng))
      case H.r(3)
      when 0 then ts = hot { Analysis::RegExpTokenizer.new(t.join(' '), re) }
      when 1
        suffix = 'q' * (1 + H.r(3))
        ts = hot { Analysis::RegExpTokenizer.new(t.join(' '), re) {|x| x + suffix } }
        t = t.map {|x| x + suffix }
      else
        suffix = 'r' * (1 + H.r(3))
        a = hot { Analysis::RegExpAnalyzer.new(re) {|x| x + suffix } }
        GC.start if H.one(3)
        ts = hot { a.token_stream(:f, t.join(' ')) }
        t = t.map {|x| x + suffix }
        a = nil
      end
      re = nil
      put(:ts, ts, t)
    when 28
      t = (0...6).map { H.pick(W) }
      ts = H.one(2) ? OwnTokenStream.new(t.join(' ')) : Analysis::WhiteSpaceTokenizer.new(t.join(' '))
      H.r(4).times do
        GC.start if H.one(4)
        case H.r(4)
        when 0 then ts = hot { Analysis::LowerCaseFilter.new(ts) }
        when 1 then ts = hot { Analysis::StopFilter.new(ts, ['zz' + 'y' * H.r(3)]) }
        when 2
          to = H.pick(W)
          ts = hot { Analysis::MappingFilter.new(ts, {['a' + 'a', 'b' + 'b'] => to.dup}) }
          t = t.map {|x| x == 'aa' || x == 'bb' ? to : x }
        else ts = hot { Analysis::HyphenFilter.new(ts) }
        end
      end
      put(:ts, ts, t)
    when 29
      if e = any(:dir)
        n = "lk#{H.r(1000)}#{@locks = (@locks || 0) + 1}"
        l = hot { e.obj.make_lock(n) }
        put(:lock, l, nil)
      end
    when 30
      fis = Index::FieldInfos.new
      fs = (0...(1 + H.r(4))).map {|i| ["g#{i}", H.pick([1.0, 2.0, 0.5])] }
      fs.each {|n, b| H.one(2) ? fis.add_field(n.to_sym, :boost => b) : fis << Index::FieldInfo.new(n.to_sym, :boost => b) }
      if H.one(2)
        put(:fis, fis, fs)
      else
        fs.each {|n, b| put(:fi, hot { fis[n.to_sym] }, [n, b]) if H.one(2) }
        fis = nil
      end
    when 31
      # a writer that outlives the analyzer, directory and field infos it was given
      path = H.one(2) ? H.dir : Store::RAMDirectory.new
      fis = Index::FieldInfos.new
      fis.add_field(:f, :boost => 2.0)
      w = hot { Index::IndexWriter.new((path.is_a?(String) ? :path : :dir) => path, :analyzer => analyzer, :create => true,
                                       :max_buffered_docs => 2, :field_infos => fis) }
      fis = nil
      put(:writer, w, [path, []])
    when 32, 33
      if e = any(:writer)
        d = {:id => "d#{e.data[1].size}", :f => (0...(1 + H.r(5))).map { H.pick(W) }, :n => H.r(50)}
        hot { e.obj << {:id => d[:id], :f => d[:f].join(' '), :n => '%03d' % d[:n]} }
        e.data[1] << d
        case H.r(6)
        when 0 then H.check(e.obj.analyzer.is_a?(Analysis::Analyzer), 'writer-analyzer') { e.obj.analyzer.inspect }
        when 1 then H.eq(2.0, e.obj.field_infos[:f].boost, 'writer-fields', 'boost of a field')
        when 2 then hot { e.obj.analyzer = analyzer }
        when 3 then hot { e.obj.commit }
        end
        H.count('late uses of a writer')
      end
    when 34
      if e = any(:clause, :sortf, :lock, :fis, :fi, :writer)
        @pool.delete(e)
        consume(e)
      end
    when 24
      if e = any(:dir)
        r = Index::IndexReader.new(e.obj)
        es = (0..H.r(3)).map { i = H.r(e.data[:docs].size); [hot { r[i] }, e.data[:docs][i]] }
        r.close
        es.each {|d, want| put(:doc, d, want) }
        H.count('documents outliving a closed reader', es.size)
      end
    when 16
      if e = any(:searcher)
        i = H.r(e.data.size)
        put(:doc, hot { e.obj[i] }, e.data[i])
        r = hot { e.obj.reader }
        H.check(r.is_a?(Index::IndexReader), 'searcher-reader') { "the reader of a searcher is #{r.inspect}" }
        put(:reader, r, e.data) if H.one(2)
      end
    when 17
      fe, re = any(:filter), any(:reader, :mreader)
      if fe && re
        bv = hot { fe.obj.bits(re.obj) }
        put(:bv, bv, re.data.each_index.select {|i| fe.data.call(re.data[i]) })
      end
    when 18
      if e = any(:te, :tde, :tpe, :doc, :bv)
        @pool.delete(e)
        consume(e)
      end
    when 19
      text = (0...6).map { H.pick(W) }.join(' ')
      a = analyzer
      ts = hot { a.token_stream(:f, text.dup) }
      put(:ts, ts, text.split)
    when 20
      if e = any(:ts)
        @pool.delete(e)
        got = []
        hot { while t = e.obj.next do got << t; gc if H.one(8) end }
        H.eq(e.data, got.map {|t| t.text.dup.force_encoding('UTF-8') }, 'token-stream', 'tokens')
        H.count('token streams')
      end
    when 21
      pq = hot { H.one(2) ? Utils::PriorityQueue.new(50) {|a, b| a > b } : Utils::PriorityQueue.new(50) }
      xs = (0...10).map { 'v%03d' % H.r(900) }
      up = pq.instance_eval { true }
      xs.each {|x| hot { pq << x.dup } ; gc if H.one(5) }
      put(:pq, pq, xs)
    when 22
      if e = any(:pq)
        @pool.delete(e)
        got = []
        gc
        hot { while x = e.obj.pop do got << x end }
        H.check(got == e.data.sort || got == e.data.sort.reverse, 'priority-queue') { "#{got.inspect} from #{e.data.inspect}" }
      end
    else
      # forget something; its dependents stay
      if !@pool.empty?
        e = H.pick(@pool)
        return if e.kind == :writer && e.data[0].is_a?(String)  # (it would be written when collected, perhaps after the case)
        @pool.delete(e)
        H.count("dropped #{e.kind}")
        e = nil
        GC.start if H.one(2)
      end
    end
  end

  def consume(e)
    gc
    case e.kind
    when :tde
      got = []
      hot { e.obj.each {|d, f| got << d } }
      H.eq(e.data, got, 'term-docs', 'documents of a term')
    when :te
      got = []
      hot { e.obj.each {|t, n| got << t.dup.force_encoding('UTF-8') } }
      H.eq(e.data, got, 'term-enum', 'terms of a field')
    when :tpe
      got = []
      hot { while e.obj.next? do d = e.obj.doc; e.obj.each_position {|p| got << [d, p] } end }
      H.eq(e.data, got, 'term-positions', 'positions of a term')
    when :doc
      H.eq(e.data[:f].join(' '), hot { e.obj[:f] }.dup.force_encoding('UTF-8'), 'lazy-doc', 'stored field')
      H.eq(e.data[:id], hot { e.obj.load[:id] }.dup.force_encoding('UTF-8'), 'lazy-doc', 'stored field')
    when :clause
      q = hot { e.obj.query }
      H.check(q.is_a?(Query), 'clause-query') { "the query of a clause is #{q.inspect}" }
      H.eq(e.data[0], q.to_s, 'clause-query', 'query of a clause')
    when :sortf
      H.eq(e.data, hot { e.obj.fields }.map {|f| f.to_s }[0, e.data.size], 'sort-fields', 'fields of a sort')
    when :lock
      H.check(hot { e.obj.obtain }, 'lock', 'a new lock could not be obtained')
      GC.start if H.one(2)
      H.check(e.obj.locked?, 'lock', 'an obtained lock is not locked')
      e.obj.release
      H.check(!e.obj.locked?, 'lock', 'a released lock is locked')
    when :fis
      got = []
      hot { e.obj.each {|f| got << [f.name.to_s, f.boost] } }
      H.eq(e.data, got, 'field-infos', 'fields')
      e.data.each {|n, b| H.eq(b, e.obj[n.to_sym].boost, 'field-infos', 'boost') }
    when :fi
      H.eq(e.data, [e.obj.name.to_s, e.obj.boost], 'field-info', 'field')
    when :writer
      path, ds = e.data
      hot { e.obj.close }
      unless ds.empty?
        r = Index::IndexReader.new(path)
        got = (0...r.max_doc).map {|i| r[i][:f].dup.force_encoding('UTF-8') }
        r.close
        H.eq(ds.map {|d| d[:f].join(' ') }, got, 'writer-documents', 'documents written')
      end
    when :bv
      got = []
      hot { e.obj.each {|i| got << i } }
      H.eq(e.data, got, 'filter-bits', 'bits of a filter')
    end
    H.count('late uses of ' + e.kind.to_s)
    H.nontrivial
  end

  def search(se, qe)
    # (a multi searcher expands a prohibited prefix, wildcard... per sub-index: finding C19)
    return if se.kind == :msearcher && qe.obj.to_s.include?('-')
    opts = {:limit => :all}
    fe = nil
    if (fe = any(:filter)) && H.one(3) then opts[:filter] = fe.obj else fe = nil end
    if se.kind == :searcher && fe.nil? && H.one(8)
      ok = se.data.each_index.select { H.one(2) }
      opts[:filter] = OwnFilter.new(ok, se.data.size)
    else
      ok = nil
    end
    so = any(:sort)
    opts[:sort] = so.obj if so && H.one(3) && se.kind == :searcher
    if se.kind == :searcher && H.one(6)  # (a multi searcher hands the block a sub-searcher and its own numbers)
      odd = true
      mx = se.data.size
      opts[:filter_proc] = lambda {|d, s, sea|
        GC.start if H.one(9)
        H.check(sea.is_a?(Searcher) && sea.max_doc == mx, 'filter-searcher') { "a filter block was given #{sea.inspect}" }
        d.odd? }
    end
    so = nil
    want = se.data.each_index.select {|i| qe.data.call(se.data[i]) && (!fe || fe.data.call(se.data[i])) && (!odd || i.odd?) && (!ok || ok.include?(i)) }
    got = []
    hot do
      if H.one(2)
        td = se.obj.search(qe.obj, opts)
        gc
        got = td.hits.map {|h| h.doc }
      else
        se.obj.search_each(qe.obj, opts) {|d, s| got << d; GC.start if H.one(12) }
      end
    end
    H.eq(want, got.sort, 'search', "documents matching #{qe.obj.to_s}")
    H.count('searches')
    H.nontrivial unless want.empty?
    unless want.empty?
      i = H.pick(want)
      case H.r(5)
      when 0
        ex = hot { se.obj.explain(qe.obj, i) }
        gc
        H.check(ex.to_s.size > 0 && ex.score >= 0, 'explain', 'explanation')
      when 1
        x = hot { se.obj.highlight(qe.obj, i, :f, :pre_tag => '<', :post_tag => '>', :excerpt_length => :all) } if se.kind == :searcher
        H.eq(se.data[i][:f].join(' '), x.join.gsub(/[<>]/, ''), 'highlight', 'highlighted field') if x && x.size > 0
      end
    end
  end

  def run
    make_index
    n = 50 + H.r(90)
    n.times { step }
    left = @pool.dup
    @pool = []
    left.shuffle!(random: H.rng)
    until left.empty?
      e = left.pop
      GC.start if H.one(6)
      consume(e) if [:tde, :te, :tpe, :doc, :bv, :clause, :sortf, :lock, :fis, :fi, :writer].include?(e.kind)
      e = nil
    end
    left = nil
    GC.start
    FFLUSH.call(nil)
    $stdout.flush
    out = File.read(STDOUT_FILE)
    if out =~ /failed (adding|deleting)/
      File.truncate(STDOUT_FILE, 0)
      H.fail!('object-table', out[/.*failed (adding|deleting).*/].gsub(/\d{6,}|[0-9a-f]{8,}/, 'N'))
    end
  end
end

H.mode('rb_gc') do
  GC.stress = false
  GcRun.new.run
end

sc = ARGV[ARGV.index('--scratch') + 1]
STDOUT_FILE = File.join(sc, "stdout.#{$$}")
STDOUT.reopen(STDOUT_FILE, 'a')
H.run
