require_relative 'harness'
require 'date'
require 'time'
require 'ferret/number_tools'
require 'ferret'
require 'ferret/number_tools'

# C27: string order of encoded numbers and dates equals their own order, and decoding gives the value back.

def rand_int(maxdig)
  case H.r(6)
  when 0 then H.r(20) - 10
  when 1 then (10 ** H.r(maxdig)) * (H.one(2) ? 1 : -1) + H.r(3) - 1
  when 2 then (2 ** H.r(70)) * (H.one(2) ? 1 : -1) + H.r(3) - 1
  else
    d = 1 + H.r(maxdig)
    s = (1 + H.r(9)).to_s + (1...d).map { H.r(10).to_s }.join
    (H.one(2) ? 1 : -1) * s.to_i
  end
end

H.mode('num_int') do
  maxdig = H.pick([3, 8, 12, 40, 130, 1200])
  xs = (0...(2 + H.r(30))).map { rand_int(maxdig) }
  xs += [xs[0] + 1, xs[0] - 1, xs[0] * 10, -xs[0], xs[0] / 10]
  H.sig(maxdig, xs.size, xs[0].to_s.size)
  H.sample("#{xs.size} integers of up to #{maxdig} digits, e.g. #{xs[0].to_s[0, 30]}")
  lex = xs.map {|x| x.to_s_lex }
  xs.each_with_index do |x, i|
    H.eq(x, lex[i].to_i_lex, 'int-roundtrip', "#{x.to_s[0, 60]}.to_s_lex.to_i_lex")
    H.count('round trips')
  end
  xs.each_with_index do |x, i|
    xs.each_with_index do |y, j|
      next if i >= j
      H.eq(x <=> y, lex[i] <=> lex[j], 'int-order', "order of #{x.to_s[0, 60]} and #{y.to_s[0, 60]} (#{lex[i][0, 60]} / #{lex[j][0, 60]})")
      H.count('ordered pairs')
    end
  end
  H.nontrivial
end

H.mode('num_pad') do
  w = 1 + H.r(24)
  xs = (0...20).map { H.r(10 ** w) }
  # numbers fitting the width sort like strings; negatives are padded behind their sign
  ps = xs.map {|x| x.to_s_pad(w) }
  xs.each_with_index do |x, i|
    H.eq(w, ps[i].size, 'pad-width', "#{x}.to_s_pad(#{w})")
    H.eq(x, ps[i].to_i, 'pad-value', "#{x}.to_s_pad(#{w})")
    H.check(ps[i] =~ /\A\d+\z/, 'pad-zeros', "#{x}.to_s_pad(#{w}) is #{ps[i].inspect}")
  end
  xs.each_index {|i| xs.each_index {|j| H.eq(xs[i] <=> xs[j], ps[i] <=> ps[j], 'pad-order', "#{xs[i]} #{xs[j]}"); H.count('ordered pairs') }}
  if w > 1
    n = -H.r(10 ** (w - 1))
    p = n.to_s_pad(w)
    H.eq(w, p.size, 'pad-width', "#{n}.to_s_pad(#{w})")
    H.eq(n, p.to_i, 'pad-value', "#{n}.to_s_pad(#{w})")
    H.check(p =~ /\A-?\d+\z/, 'pad-zeros', "#{n}.to_s_pad(#{w}) is #{p.inspect}")
  end
  H.sig(w, xs[0] % 7)
  H.nontrivial
end

PREC = [:year, :month, :day, :hour, :minute, :second]

def rand_dt
  y = H.one(4) ? H.r(10000) : 1900 + H.r(200)
  m = 1 + H.r(12)
  d = 1 + H.r(28)
  [y, m, d, H.r(24), H.r(60), H.r(60), H.r(1000)]
end

def near(a)
  b = a.dup
  i = H.r(7)
  lim = [[0, 9999], [1, 12], [1, 28], [0, 23], [0, 59], [0, 59], [0, 999]][i]
  b[i] = [[b[i] + H.pick([-1, 1, 10]), lim[0]].max, lim[1]].min
  b
end

H.mode('num_date') do
  a = rand_dt
  xs = [a] + (0...6).map { near(a) } + (0...6).map { rand_dt }
  xs.map! {|x| x = near(x); x }
  H.sig(xs[0].join('-'))
  H.sample("13 dates at 6 precisions, e.g. #{xs[0].join('-')}")
  PREC.each_with_index do |p, pi|
    kinds = [[:time, xs.map {|x| Time.utc(x[0], x[1], x[2], x[3], x[4], x[5], x[6] * 1000) }],
             [:local, xs.map {|x| Time.mktime(x[0], x[1], x[2], x[3], x[4], x[5], x[6] * 1000) }],
             [:datetime, xs.map {|x| DateTime.civil(x[0], x[1], x[2], x[3], x[4], x[5] + Rational(x[6], 1000)) }]]
    kinds << [:date, xs.map {|x| Date.civil(x[0], x[1], x[2]) }] if pi <= 2
    kinds.each do |kind, vs|
      ss = vs.map {|v| v.to_s_lex(p) }
      cut = xs.map {|x| x[0..pi] }
      cut.each_index do |i|
        cut.each_index do |j|
          next if i > j
          H.eq(cut[i] <=> cut[j], ss[i] <=> ss[j], 'date-order', "#{kind} #{p}: #{cut[i].inspect} and #{cut[j].inspect} as #{ss[i].inspect} and #{ss[j].inspect}")
          H.count('ordered pairs')
        end
        back = ss[i].to_time_lex
        want = Time.mktime(*(cut[i][0..5]))
        H.eq([want.year, want.month, want.day, want.hour, want.min, want.sec],
             [back.year, back.month, back.day, back.hour, back.min, back.sec], 'date-roundtrip', "#{kind} #{p} #{ss[i].inspect}.to_time_lex")
        H.count('round trips')
        if p == :second
        dt = ss[i].to_date_time_lex
        H.eq([want.year, want.month, want.day, want.hour, want.min, want.sec],
             [dt.year, dt.month, dt.day, dt.hour, dt.min, dt.sec], 'date-roundtrip', "#{kind} #{p} #{ss[i].inspect}.to_date_time_lex")
        end
        next unless p == :day
        da = ss[i].to_date_lex
        H.eq([want.year, want.month, want.day], [da.year, da.month, da.day], 'date-roundtrip', "#{kind} #{p} #{ss[i].inspect}.to_date_lex")
      end
    end
  end
  H.nontrivial
end

H.run
