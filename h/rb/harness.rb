# Ruby side of the harness protocol (see h/common.h): seeded cases, JSON lines out.
require 'json'
require 'digest'
require 'fileutils'
require 'set'

module H
  class Failed < StandardError
    attr_reader :key
    def initialize(key, msg) super(msg); @key = key end
  end
  class Skip < StandardError; end

  OPT = {'verbose' => '0', 'tier' => 'quick'}
  MODES = {}

  class << self
    attr_reader :rng, :case_no
    def mode(name, &blk) MODES[name] = blk end
    def note(s)
      @trace << s if @trace.size < 400
      STDERR.puts "  | #{s}" if OPT['verbose'] == '1'
    end
    def sig(*xs) @sig << xs.join(',') << ';' end
    def count(k, n = 1) @counters[k] = (@counters[k] || 0) + n end
    def nontrivial(b = true) @nt ||= b end
    def sample(s) @samples << s if @samples.size < 3 end
    def fail!(key, msg) raise Failed.new(key, msg) end
    def check(cond, key, msg = nil) fail!(key, msg || (block_given? ? yield : '')) unless cond end
    def eq(want, got, key, what)
      fail!(key, "#{what}: want #{want.inspect[0, 300]}, got #{got.inspect[0, 300]}") unless want == got
    end
    # a fresh directory, removed after the case
    def dir
      @ndir = (@ndir || 0) + 1
      d = File.join(OPT['scratch'], "d#{@case_no}_#{@ndir}")
      FileUtils.rm_rf(d)
      FileUtils.mkdir_p(d)
      @dirs << d
      d
    end
    def r(n) @rng.rand(n) end
    def one(n) @rng.rand(n) == 0 end
    def pick(a) a[@rng.rand(a.size)] end

    def run
      ARGV.each_slice(2) {|k, v| OPT[k.sub('--', '')] = v}
      out = File.open(OPT['out'], 'w')
      out.sync = true
      blk = MODES[OPT['mode']] or (STDERR.puts "unknown mode #{OPT['mode']}"; exit!(4))
      @counters, @samples = {}, []
      distinct = Set.new
      evals = 0
      (OPT['from'].to_i...OPT['to'].to_i).each do |n|
        @case_no = n
        @trace, @sig, @nt, @dirs = [], String.new, false, []
        @rng = Random.new(Digest::SHA1.hexdigest("#{OPT['seed']}/#{OPT['mode']}/#{n}")[0, 15].to_i(16))
        out.puts JSON.generate('t' => 'start', 'case' => n)
        begin
          blk.call
        rescue Skip => e
          count('skipped')
        rescue Failed => e
          out.puts viol(n, e.key, e.message)
        rescue Exception => e
          raise if e.is_a?(SystemExit) || e.is_a?(Interrupt)
          where = (e.backtrace || []).find {|l| l !~ /rb\/harness/}.to_s
          lib = (e.backtrace || []).find {|l| l =~ /ferret/}.to_s[/(\w+\.rb):\d+:in `(.*)'/, 2]
          out.puts viol(n, "exception:#{e.class}#{lib ? ':' + lib : ''}", "#{e.class}: #{e.message[0, 500]} at #{(e.backtrace || [])[0, 6].join(' < ')}")
        ensure
          @dirs.each {|d| FileUtils.rm_rf(d)}
        end
        evals += 1
        distinct << Digest::SHA1.hexdigest(@sig)[0, 16] if @nt
      end
      out.puts JSON.generate('t' => 'done', 'evals' => evals, 'counters' => @counters, 'samples' => @samples, 'distinct' => distinct.to_a)
      out.close
      $stdout.flush
      exit!(0) if OPT['exit'] == 'fast'
    end

    def clean(s) s.to_s.dup.force_encoding('UTF-8').scrub('?') end

    def viol(n, key, msg)
      JSON.generate('t' => 'violation', 'case' => n, 'key' => clean(key), 'msg' => clean(msg), 'trace' => @trace.last(120).map {|s| clean(s)})
    end
  end
end
