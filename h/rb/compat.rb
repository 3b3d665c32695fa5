# Names Ruby 3.2 removed which the project's Rakefile and library still use.
class File
  class << self
    alias exists? exist? unless method_defined?(:exists?)
  end
end
class Dir
  class << self
    alias exists? exist? unless method_defined?(:exists?)
  end
end
