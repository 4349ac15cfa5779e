#ifndef VERIF_MINI_AROLLA_ARRAY_H_
#define VERIF_MINI_AROLLA_ARRAY_H_
#include <algorithm>
#include "arolla/mini/qtype.h"
namespace arolla {

// ---- buffers ----------------------------------------------------------------
using RawBufferPtr = std::shared_ptr<const void>;
class RawBufferFactory {};
inline RawBufferFactory* GetHeapBufferFactory() {
  static RawBufferFactory f;
  return &f;
}
class UnsafeArenaBufferFactory : public RawBufferFactory {
 public:
  explicit UnsafeArenaBufferFactory(int64_t) {}
};

template <typename T>
class SimpleBuffer {
 public:
  using value_type = T;
  using size_type = int64_t;
  using difference_type = int64_t;
  using const_iterator = typename absl::Span<const T>::const_iterator;
  using offset_type = int64_t;

  SimpleBuffer() = default;
  SimpleBuffer(std::nullptr_t, absl::Span<const T> span) : span_(span) {}
  SimpleBuffer(RawBufferPtr holder, absl::Span<const T> span)
      : holder_(std::move(holder)), span_(span) {}

  class Builder {
   public:
    Builder() = default;
    explicit Builder(int64_t n, RawBufferFactory* = nullptr)
        : data_(n ? std::shared_ptr<T[]>(new T[n]()) : nullptr), n_(n) {}
    Builder(Builder&&) = default;
    Builder& operator=(Builder&&) = default;
    class Inserter {
     public:
      void Add(T v) { b_->Set(i_++, std::move(v)); }
      void SkipN(int64_t n) { i_ += n; }

     private:
      friend class Builder;
      Inserter(Builder* b, int64_t i) : b_(b), i_(i) {}
      Builder* b_;
      int64_t i_;
    };
    Inserter GetInserter(int64_t i = 0) { return Inserter(this, i); }
    void Set(int64_t i, T v) {
      Chk(i);
      data_[i] = std::move(v);
    }
    void Copy(int64_t from, int64_t to) {
      Chk(from);
      Chk(to);
      data_[to] = data_[from];
    }
    template <typename Fn>
    void SetN(int64_t first, int64_t count, Fn fn) {
      for (int64_t i = 0; i < count; ++i) Set(first + i, fn());
    }
    void SetNConst(int64_t first, int64_t count, T v) {
      for (int64_t i = 0; i < count; ++i) Set(first + i, v);
    }
    absl::Span<T> GetMutableSpan() { return absl::Span<T>(data_.get(), n_); }
    int64_t size() const { return n_; }
    SimpleBuffer Build() && { return std::move(*this).Build(n_); }
    SimpleBuffer Build(Inserter ins) && {
      return std::move(*this).Build(ins.i_);
    }
    SimpleBuffer Build(int64_t n) && {
      if (n > n_) std::abort();
      absl::Span<const T> s(data_.get(), n);
      return SimpleBuffer(RawBufferPtr(data_, data_.get()), s);
    }

   private:
    // A write outside the buffer is memory corruption in the real library.
    void Chk(int64_t i) const {
      if (i < 0 || i >= n_) {
        std::fprintf(stderr, "buffer index %ld out of range %ld\n", (long)i,
                     (long)n_);
        std::abort();
      }
    }
    std::shared_ptr<T[]> data_;
    int64_t n_ = 0;
  };

  class ReshuffleBuilder {
   public:
    explicit ReshuffleBuilder(int64_t n, const SimpleBuffer& v,
                              const OptionalValue<T>& def,
                              RawBufferFactory* = nullptr)
        : b_(n), old_(v) {
      if (n > 0 && def.present) {
        for (int64_t i = 0; i < n; ++i) b_.Set(i, def.value);
      }
    }
    void CopyValue(int64_t to, int64_t from) { b_.Set(to, old_[from]); }
    void CopyValueToRange(int64_t a, int64_t b, int64_t from) {
      for (int64_t i = a; i < b; ++i) b_.Set(i, old_[from]);
    }
    SimpleBuffer Build(int64_t n) && { return std::move(b_).Build(n); }
    SimpleBuffer Build() && { return std::move(b_).Build(); }

   private:
    Builder b_;
    SimpleBuffer old_;
  };

  static SimpleBuffer CreateUninitialized(size_t n, RawBufferFactory* = nullptr) {
    return Builder(n).Build();
  }
  template <typename It>
  static SimpleBuffer Create(It begin, It end, RawBufferFactory* = nullptr) {
    int64_t n = std::distance(begin, end);
    Builder b(n);
    for (int64_t i = 0; i < n; ++i, ++begin) b.Set(i, T(*begin));
    return std::move(b).Build();
  }
  static SimpleBuffer Create(std::vector<T>&& v) {
    return Create(v.begin(), v.end());
  }
  static SimpleBuffer Create(std::initializer_list<T> v,
                             RawBufferFactory* = nullptr) {
    return Create(v.begin(), v.end());
  }
  static SimpleBuffer CreateFull(size_t n, T v, RawBufferFactory* = nullptr) {
    Builder b(n);
    b.SetNConst(0, n, v);
    return std::move(b).Build();
  }
  bool is_owner() const { return holder_ != nullptr; }
  bool empty() const { return span_.empty(); }
  int64_t size() const { return span_.size(); }
  size_t memory_usage() const { return sizeof(T) * size(); }
  absl::Span<const T> span() const { return span_; }
  absl::Span<const T> materialized_span() const { return span_; }
  const T& operator[](int64_t i) const {
    if (i < 0 || i >= size()) {
      std::fprintf(stderr, "buffer read %ld out of range %ld\n", (long)i,
                   (long)size());
      std::abort();
    }
    return span_.data()[i];
  }
  const_iterator begin() const { return span_.begin(); }
  const_iterator end() const { return span_.end(); }
  const T& front() const { return span_.front(); }
  const T& back() const { return span_.back(); }
  SimpleBuffer ShallowCopy() const {
    return holder_ ? *this : DeepCopy();
  }
  SimpleBuffer DeepCopy(RawBufferFactory* = nullptr) const {
    return Create(begin(), end());
  }
  SimpleBuffer Slice(int64_t off, int64_t n) const& {
    if (n == 0) return {};
    return SimpleBuffer(holder_, span_.subspan(off, n));
  }
  bool operator==(const SimpleBuffer& o) const {
    return span_.size() == o.span_.size() &&
           std::equal(begin(), end(), o.begin());
  }
  bool operator!=(const SimpleBuffer& o) const { return !(*this == o); }

 private:
  RawBufferPtr holder_;
  absl::Span<const T> span_;
};

template <typename T>
struct FingerprintHasherTraits<SimpleBuffer<T>> {
  void operator()(FingerprintHasher* h, const SimpleBuffer<T>& v) const {
    h->CombineSpan(v.span());
  }
};

class VoidBuffer {
 public:
  using value_type = Unit;
  using offset_type = int64_t;
  using const_iterator = ConstArrayIterator<VoidBuffer>;
  VoidBuffer() = default;
  explicit VoidBuffer(int64_t n) : n_(n) {}
  class Builder {
   public:
    Builder() = default;
    explicit Builder(int64_t n, RawBufferFactory* = nullptr) : n_(n) {}
    class Inserter {
     public:
      void Add(Unit) { i_++; }
      void SkipN(int64_t n) { i_ += n; }
      int64_t i_ = 0;
    };
    Inserter GetInserter(int64_t i = 0) {
      Inserter r;
      r.i_ = i;
      return r;
    }
    void Set(int64_t, Unit) {}
    void Copy(int64_t, int64_t) {}
    template <typename Fn>
    void SetN(int64_t, int64_t, Fn) {}
    void SetNConst(int64_t, int64_t, Unit) {}
    int64_t size() const { return n_; }
    VoidBuffer Build() && { return VoidBuffer(n_); }
    VoidBuffer Build(int64_t n) && { return VoidBuffer(n); }
    VoidBuffer Build(Inserter i) && { return VoidBuffer(i.i_); }

   private:
    int64_t n_ = 0;
  };
  class ReshuffleBuilder {
   public:
    explicit ReshuffleBuilder(int64_t n, const VoidBuffer&,
                              const OptionalUnit&, RawBufferFactory* = nullptr)
        : n_(n) {}
    void CopyValue(int64_t, int64_t) {}
    void CopyValueToRange(int64_t, int64_t, int64_t) {}
    VoidBuffer Build(int64_t n) && { return VoidBuffer(n); }
    VoidBuffer Build() && { return VoidBuffer(n_); }

   private:
    int64_t n_;
  };
  template <typename It>
  static VoidBuffer Create(It b, It e, RawBufferFactory* = nullptr) {
    return VoidBuffer(std::distance(b, e));
  }
  static VoidBuffer CreateUninitialized(int64_t n, RawBufferFactory* = nullptr) {
    return VoidBuffer(n);
  }
  static VoidBuffer CreateFull(int64_t n, Unit, RawBufferFactory* = nullptr) {
    return VoidBuffer(n);
  }
  bool is_owner() const { return true; }
  bool empty() const { return n_ == 0; }
  int64_t size() const { return n_; }
  size_t memory_usage() const { return sizeof(*this); }
  Unit operator[](int64_t) const { return {}; }
  Unit front() const { return {}; }
  Unit back() const { return {}; }
  const_iterator begin() const { return const_iterator(this, 0); }
  const_iterator end() const { return const_iterator(this, n_); }
  VoidBuffer ShallowCopy() const { return *this; }
  VoidBuffer DeepCopy(RawBufferFactory* = nullptr) const { return *this; }
  VoidBuffer Slice(int64_t, int64_t n) const { return VoidBuffer(n); }
  bool operator==(const VoidBuffer& o) const { return n_ == o.n_; }
  bool operator!=(const VoidBuffer& o) const { return n_ != o.n_; }
  void ArollaFingerprint(FingerprintHasher* h) const { h->Combine(n_); }

 private:
  int64_t n_ = 0;
};

class StringsBuffer {
 public:
  using value_type = std::string;
  using offset_type = int64_t;
  struct Offsets {
    int64_t start = 0;
    int64_t end = 0;
  };
  using const_iterator = ConstArrayIterator<StringsBuffer>;
  StringsBuffer() = default;
  StringsBuffer(SimpleBuffer<Offsets> offsets, SimpleBuffer<char> chars,
                int64_t base = 0)
      : offsets_(std::move(offsets)), chars_(std::move(chars)), base_(base) {}

  class Builder {
   public:
    Builder() = default;
    explicit Builder(int64_t n, RawBufferFactory* = nullptr) : v_(n) {}
    explicit Builder(int64_t n, int64_t, RawBufferFactory* = nullptr) : v_(n) {}
    class Inserter {
     public:
      void Add(absl::string_view v) { b_->Set(i_++, v); }
      void SkipN(int64_t n) { i_ += n; }
      Builder* b_;
      int64_t i_;
    };
    Inserter GetInserter(int64_t i = 0) { return Inserter{this, i}; }
    void Set(int64_t i, absl::string_view v) {
      Chk(i);
      v_[i].assign(v.data(), v.size());
    }
    void Copy(int64_t from, int64_t to) {
      Chk(from);
      Chk(to);
      v_[to] = v_[from];
    }
    template <typename Fn>
    void SetN(int64_t first, int64_t n, Fn fn) {
      for (int64_t i = 0; i < n; ++i) Set(first + i, fn());
    }
    void SetNConst(int64_t first, int64_t n, absl::string_view v) {
      for (int64_t i = 0; i < n; ++i) Set(first + i, v);
    }
    int64_t size() const { return v_.size(); }
    StringsBuffer Build() && { return std::move(*this).Build(v_.size()); }
    StringsBuffer Build(Inserter i) && { return std::move(*this).Build(i.i_); }
    StringsBuffer Build(int64_t n) && {
      v_.resize(n);
      return StringsBuffer::Create(v_.begin(), v_.end());
    }

   private:
    void Chk(int64_t i) const {
      if (i < 0 || i >= static_cast<int64_t>(v_.size())) {
        std::fprintf(stderr, "strings buffer index out of range\n");
        std::abort();
      }
    }
    std::vector<std::string> v_;
  };
  class ReshuffleBuilder {
   public:
    template <typename D>
    explicit ReshuffleBuilder(int64_t n, const StringsBuffer& v, const D& def,
                              RawBufferFactory* = nullptr)
        : b_(n), old_(v) {
      if constexpr (!std::is_same_v<D, std::nullopt_t>) {
        if (def.present) b_.SetNConst(0, n, def.value);
      }
    }
    void CopyValue(int64_t to, int64_t from) { b_.Set(to, old_[from]); }
    void CopyValueToRange(int64_t a, int64_t b, int64_t from) {
      for (int64_t i = a; i < b; ++i) b_.Set(i, old_[from]);
    }
    StringsBuffer Build(int64_t n) && { return std::move(b_).Build(n); }
    StringsBuffer Build() && { return std::move(b_).Build(); }

   private:
    Builder b_;
    const StringsBuffer& old_;
  };
  template <typename It>
  static StringsBuffer Create(It begin, It end, RawBufferFactory* = nullptr) {
    std::vector<Offsets> off;
    std::string chars;
    for (; begin != end; ++begin) {
      const auto& x = *begin;
      absl::string_view v = x;
      off.push_back({static_cast<int64_t>(chars.size()),
                     static_cast<int64_t>(chars.size() + v.size())});
      chars.append(v.data(), v.size());
    }
    return StringsBuffer(SimpleBuffer<Offsets>::Create(off.begin(), off.end()),
                         SimpleBuffer<char>::Create(chars.begin(), chars.end()));
  }
  static StringsBuffer Create(std::initializer_list<absl::string_view> v) {
    return Create(v.begin(), v.end());
  }
  static StringsBuffer CreateUninitialized(size_t n, RawBufferFactory* = nullptr) {
    return StringsBuffer(SimpleBuffer<Offsets>::CreateUninitialized(n), {});
  }
  static StringsBuffer CreateFull(int64_t n, absl::string_view v,
                                  RawBufferFactory* = nullptr) {
    std::vector<Offsets> off(n, Offsets{0, static_cast<int64_t>(v.size())});
    return StringsBuffer(SimpleBuffer<Offsets>::Create(off.begin(), off.end()),
                         SimpleBuffer<char>::Create(v.begin(), v.end()));
  }
  bool is_owner() const { return offsets_.is_owner() && chars_.is_owner(); }
  bool empty() const { return offsets_.empty(); }
  int64_t size() const { return offsets_.size(); }
  size_t memory_usage() const {
    return offsets_.memory_usage() + chars_.memory_usage();
  }
  absl::string_view operator[](int64_t i) const {
    auto o = offsets_[i];
    return absl::string_view(chars_.span().data() + o.start - base_,
                             o.end - o.start);
  }
  absl::string_view front() const { return (*this)[0]; }
  absl::string_view back() const { return (*this)[size() - 1]; }
  const_iterator begin() const { return const_iterator(this, 0); }
  const_iterator end() const { return const_iterator(this, size()); }
  StringsBuffer ShallowCopy() const {
    return StringsBuffer(offsets_.ShallowCopy(), chars_.ShallowCopy(), base_);
  }
  StringsBuffer DeepCopy(RawBufferFactory* = nullptr) const {
    return Create(begin(), end());
  }
  StringsBuffer Slice(int64_t off, int64_t n) const& {
    return StringsBuffer(offsets_.Slice(off, n), chars_, base_);
  }
  bool operator==(const StringsBuffer& o) const {
    return size() == o.size() && std::equal(begin(), end(), o.begin());
  }
  bool operator!=(const StringsBuffer& o) const { return !(*this == o); }
  const SimpleBuffer<Offsets>& offsets() const { return offsets_; }
  const SimpleBuffer<char>& characters() const { return chars_; }
  int64_t base_offset() const { return base_; }
  void ArollaFingerprint(FingerprintHasher* h) const {
    h->Combine(size());
    for (absl::string_view s : *this) h->Combine(s);
  }

 private:
  SimpleBuffer<Offsets> offsets_;
  SimpleBuffer<char> chars_;
  int64_t base_ = 0;
};

template <typename T>
struct BufferTraits { using type = SimpleBuffer<T>; };
template <>
struct BufferTraits<Unit> { using type = VoidBuffer; };
template <>
struct BufferTraits<Text> { using type = StringsBuffer; };
template <>
struct BufferTraits<Bytes> { using type = StringsBuffer; };
template <typename T>
using Buffer = typename BufferTraits<T>::type;
template <typename T>
Buffer<T> CreateBuffer(std::initializer_list<T> v) {
  return Buffer<T>::Create(v.begin(), v.end());
}
template <typename T, size_t N>
Buffer<T> CreateBuffer(const T (&v)[N]) {
  return Buffer<T>::Create(v, v + N);
}
template <typename T>
Buffer<T> CreateBuffer(const std::vector<T>& v) {
  return Buffer<T>::Create(v.begin(), v.end());
}

// ---- bitmap -----------------------------------------------------------------
namespace bitmap {
using Word = uint32_t;
inline constexpr int kWordBitCount = 32;
inline constexpr Word kFullWord = ~Word{0};
using Bitmap = Buffer<Word>;
inline int64_t BitmapSize(int64_t bits) {
  return (bits + kWordBitCount - 1) / kWordBitCount;
}
inline Word GetWord(const Bitmap& b, int64_t i) {
  return b.size() <= i ? kFullWord : b[i];
}
inline Word GetWordWithOffset(const Bitmap& b, int64_t i, int offset) {
  if (i >= b.size()) return kFullWord;
  Word m = b[i] >> offset;
  if (offset == 0 || i + 1 == b.size()) return m;
  return m | (b[i + 1] << (kWordBitCount - offset));
}
inline bool GetBit(Word w, int bit) { return (w >> bit) & 1; }
inline bool GetBit(const Word* b, int64_t i) {
  return GetBit(b[i / kWordBitCount], i % kWordBitCount);
}
inline bool GetBit(const Bitmap& b, int64_t i) {
  return b.empty() || GetBit(b[i / kWordBitCount], i % kWordBitCount);
}
inline void SetBit(Word* b, int64_t i) {
  b[i / kWordBitCount] |= Word{1} << (i % kWordBitCount);
}
inline void UnsetBit(Word* b, int64_t i) {
  b[i / kWordBitCount] &= ~(Word{1} << (i % kWordBitCount));
}
inline int64_t CountBits(const Bitmap& b, int64_t offset, int64_t size) {
  if (b.empty()) return size;
  int64_t r = 0;
  for (int64_t i = 0; i < size; ++i) r += GetBit(b, offset + i);
  return r;
}
inline bool AreAllBitsSet(const Word* b, int64_t n) {
  for (int64_t i = 0; i < n; ++i) {
    if (!GetBit(b, i)) return false;
  }
  return true;
}
inline bool AreAllBitsUnset(const Word* b, int64_t n) {
  for (int64_t i = 0; i < n; ++i) {
    if (GetBit(b, i)) return false;
  }
  return true;
}
template <typename Fn>
void Iterate(const Bitmap& b, int64_t first, int64_t n, Fn&& fn) {
  for (int64_t i = 0; i < n; ++i) fn(GetBit(b, first + i));
}
template <typename Fn>
void IterateWord(Word w, Fn&& fn, int n = kWordBitCount) {
  for (int i = 0; i < n; ++i) fn(i, GetBit(w, i));
}
template <typename Fn>
void IterateByGroups(const Word* b, int64_t first, int64_t n, Fn&& init) {
  for (int64_t g = 0; g < n; g += kWordBitCount) {
    auto fn = init(g);
    for (int64_t i = 0; i < kWordBitCount && g + i < n; ++i) {
      fn(i, GetBit(b, first + g + i));
    }
  }
}
class Builder {
 public:
  explicit Builder(int64_t bits, RawBufferFactory* = nullptr)
      : words_(BitmapSize(bits), 0), size_(bits) {}
  template <typename Fn>
  void AddByGroups(int64_t n, Fn&& init) {
    for (int64_t g = 0; g < n; g += kWordBitCount) {
      auto fn = init(g);
      for (int64_t i = 0; i < kWordBitCount && g + i < n; ++i) {
        if (fn(i)) SetBit(words_.data(), cur_ + g + i);
      }
    }
    cur_ += n;
  }
  template <typename C, typename Fn>
  void AddForEach(const C& c, Fn&& fn) {
    for (const auto& v : c) {
      if (fn(v)) SetBit(words_.data(), cur_);
      ++cur_;
    }
  }
  Bitmap Build() && {
    if (AreAllBitsSet(words_.data(), size_)) return Bitmap();
    return Bitmap::Create(words_.begin(), words_.end());
  }

 private:
  std::vector<Word> words_;
  int64_t size_;
  int64_t cur_ = 0;
};
class AlmostFullBuilder {
 public:
  explicit AlmostFullBuilder(int64_t bits, RawBufferFactory* = nullptr)
      : n_(bits) {}
  void AddMissed(int64_t id) {
    if (id < 0 || id >= n_) std::abort();
    if (words_.empty()) words_.resize(BitmapSize(n_), kFullWord);
    UnsetBit(words_.data(), id);
  }
  Bitmap Build() && {
    return words_.empty() ? Bitmap()
                          : Bitmap::Create(words_.begin(), words_.end());
  }
  Bitmap Build(int64_t size) && {
    if (words_.empty()) return Bitmap();
    return Bitmap::Create(words_.begin(), words_.begin() + BitmapSize(size));
  }

 private:
  int64_t n_;
  std::vector<Word> words_;
};
inline Bitmap CreateEmptyBitmap(int64_t bits, RawBufferFactory* = nullptr) {
  return Bitmap::CreateFull(BitmapSize(bits), 0);
}
// A view on several bits with fast access by word.
template <class A, class B, class Fn>
void IntersectionMini(A, B, Fn) {}
}  // namespace bitmap

// ---- DenseArray -------------------------------------------------------------
template <typename T>
struct DenseArray {
  using base_type = T;
  using value_type = OptionalValue<view_type_t<T>>;
  using size_type = int64_t;
  using const_iterator = ConstArrayIterator<DenseArray<T>>;
  using difference_type = int64_t;
  using offset_type = int64_t;

  Buffer<T> values;
  bitmap::Bitmap bitmap;
  int bitmap_bit_offset = 0;

  int64_t size() const { return values.size(); }
  bool empty() const { return values.empty(); }
  bool IsFull() const { return PresentCount() == size(); }
  int64_t PresentCount() const {
    return bitmap::CountBits(bitmap, bitmap_bit_offset, size());
  }
  bool IsAllMissing() const { return PresentCount() == 0; }
  bool IsAllPresent() const { return IsFull(); }
  bool AllMissing() const { return PresentCount() == 0; }
  bool present(int64_t i) const {
    return bitmap::GetBit(bitmap, i + bitmap_bit_offset);
  }
  OptionalValue<view_type_t<T>> operator[](int64_t i) const {
    if (present(i)) {
      return OptionalValue<view_type_t<T>>(true, values[i]);
    }
    return std::nullopt;
  }
  bool is_owned() const { return values.is_owner(); }
  DenseArray MakeOwned(RawBufferFactory* = nullptr) && {
    return {values.ShallowCopy(), bitmap.ShallowCopy(), bitmap_bit_offset};
  }
  DenseArray ToOwned(RawBufferFactory* = nullptr) const {
    return {values.ShallowCopy(), bitmap.ShallowCopy(), bitmap_bit_offset};
  }
  DenseArray MakeUnowned() const { return *this; }
  DenseArray Slice(int64_t start, int64_t n) const {
    DenseArray r;
    r.values = values.Slice(start, n);
    if (!bitmap.empty()) {
      bitmap::Builder b(n);
      b.AddByGroups(n, [&](int64_t g) {
        return [&, g](int64_t i) { return present(start + g + i); };
      });
      r.bitmap = std::move(b).Build();
    }
    return r;
  }
  DenseArray ForceNoBitmapBitOffset(RawBufferFactory* = nullptr) const& {
    return Slice(0, size());
  }
  DenseArray ForceNoBitmapBitOffset(RawBufferFactory* = nullptr) && {
    return std::as_const(*this).Slice(0, size());
  }
  DenseArray<Unit> ToMask() const;
  // Missing values are passed as (possibly garbage) values with present=false.
  template <typename Fn>
  void ForEach(Fn&& fn) const {
    for (int64_t i = 0; i < size(); ++i) fn(i, present(i), values[i]);
  }
  template <typename Fn>
  void ForEachPresent(Fn&& fn) const {
    for (int64_t i = 0; i < size(); ++i) {
      if (present(i)) fn(i, values[i]);
    }
  }
  template <typename Fn>
  void ForEachByGroups(Fn init) const {
    for (int64_t g = 0; g < size(); g += bitmap::kWordBitCount) {
      auto fn = init(g);
      for (int64_t i = g; i < g + bitmap::kWordBitCount && i < size(); ++i) {
        fn(i, present(i), values[i]);
      }
    }
  }
  const_iterator begin() const { return const_iterator(this, 0); }
  const_iterator end() const { return const_iterator(this, size()); }
  bool CheckBitmapMatchesValues() const {
    return bitmap.empty() ||
           bitmap.size() == bitmap::BitmapSize(size() + bitmap_bit_offset);
  }
  void ArollaFingerprint(FingerprintHasher* h) const {
    h->Combine(size());
    for (int64_t i = 0; i < size(); ++i) {
      h->Combine(present(i));
      if (present(i)) {
        if constexpr (std::is_same_v<view_type_t<T>, T>) {
          h->Combine(values[i]);
        } else {
          h->Combine(T(values[i]));
        }
      }
    }
  }
};
template <typename T>
bool ArraysAreEquivalent(const DenseArray<T>& a, const DenseArray<T>& b) {
  if (a.size() != b.size()) return false;
  for (int64_t i = 0; i < a.size(); ++i) {
    if (a[i] != b[i]) return false;
  }
  return true;
}
template <typename T>
bool operator==(const DenseArray<T>& a, const DenseArray<T>& b) = delete;

template <typename T>
DenseArray<Unit> DenseArray<T>::ToMask() const {
  return DenseArray<Unit>{VoidBuffer(size()), bitmap, bitmap_bit_offset};
}

template <typename T>
class DenseArrayBuilder {
 public:
  using base_type = T;
  explicit DenseArrayBuilder(int64_t n, RawBufferFactory* = nullptr)
      : b_(n), words_(bitmap::BitmapSize(n), 0), n_(n) {}
  template <typename V>
  void Set(int64_t id, const V& v) {
    if constexpr (std::is_same_v<V, std::nullopt_t>) {
      return;
    } else if constexpr (is_optional_v<V>) {
      if (v.present) Put(id, v.value);
    } else if constexpr (meta::is_wrapped_with_v<std::optional, V>) {
      if (v.has_value()) Put(id, *v);
    } else {
      Put(id, v);
    }
  }
  template <typename V>
  void SetNConst(int64_t id, int64_t n, const V& v) {
    for (int64_t i = 0; i < n; ++i) Set(id + i, v);
  }
  template <typename V>
  void Add(int64_t id, const V& v) { Set(id, v); }
  DenseArray<T> Build() && { return std::move(*this).Build(n_); }
  DenseArray<T> Build(int64_t n) && {
    if (n > n_) std::abort();
    DenseArray<T> r;
    r.values = std::move(b_).Build(n);
    if (!bitmap::AreAllBitsSet(words_.data(), n)) {
      r.bitmap = bitmap::Bitmap::Create(
          words_.begin(), words_.begin() + bitmap::BitmapSize(n));
    }
    return r;
  }

 private:
  template <typename V>
  void Put(int64_t id, const V& v) {
    if constexpr (std::is_same_v<T, Unit>) {
      b_.Set(id, kUnit);
    } else if constexpr (std::is_same_v<view_type_t<T>, T>) {
      b_.Set(id, static_cast<T>(v));
    } else {
      b_.Set(id, view_type_t<T>(v));
    }
    bitmap::SetBit(words_.data(), id);
  }
  typename Buffer<T>::Builder b_;
  std::vector<bitmap::Word> words_;
  int64_t n_;
};

template <typename T>
DenseArray<T> CreateDenseArray(absl::Span<const OptionalValue<T>> v,
                               RawBufferFactory* = nullptr) {
  DenseArrayBuilder<T> b(v.size());
  for (size_t i = 0; i < v.size(); ++i) b.Set(i, v[i]);
  return std::move(b).Build();
}
template <typename T>
DenseArray<T> CreateDenseArray(const std::vector<OptionalValue<T>>& v) {
  return CreateDenseArray<T>(absl::Span<const OptionalValue<T>>(v));
}
template <typename T>
DenseArray<T> CreateDenseArray(std::initializer_list<OptionalValue<T>> v) {
  return CreateDenseArray<T>(
      absl::Span<const OptionalValue<T>>(v.begin(), v.size()));
}
template <typename T, typename It>
DenseArray<T> CreateDenseArray(It begin, It end, RawBufferFactory* = nullptr) {
  DenseArrayBuilder<T> b(std::distance(begin, end));
  int64_t i = 0;
  for (; begin != end; ++begin) b.Set(i++, *begin);
  return std::move(b).Build();
}
template <typename T>
DenseArray<T> CreateFullDenseArray(const std::vector<T>& v,
                                   RawBufferFactory* = nullptr) {
  return {Buffer<T>::Create(v.begin(), v.end()), {}};
}
template <typename T>
DenseArray<T> CreateFullDenseArray(std::initializer_list<T> v,
                                   RawBufferFactory* = nullptr) {
  return {Buffer<T>::Create(v.begin(), v.end()), {}};
}
template <typename T, typename It>
DenseArray<T> CreateFullDenseArray(It begin, It end,
                                   RawBufferFactory* = nullptr) {
  return {Buffer<T>::Create(begin, end), {}};
}
template <typename T>
DenseArray<T> CreateConstDenseArray(int64_t n, view_type_t<T> v,
                                    RawBufferFactory* = nullptr) {
  return {Buffer<T>::CreateFull(n, v), {}};
}
template <typename T>
DenseArray<T> CreateEmptyDenseArray(int64_t n, RawBufferFactory* = nullptr) {
  return {Buffer<T>::CreateUninitialized(n), bitmap::CreateEmptyBitmap(n)};
}
template <typename T>
struct ReprTraits<DenseArray<T>> {
  ReprToken operator()(const DenseArray<T>& a) const {
    std::string s = "dense_array([";
    for (int64_t i = 0; i < a.size(); ++i) {
      if (i) s += ", ";
      s += a.present(i) ? Repr(T(a.values[i])) : std::string("NA");
    }
    return ReprToken(s + "])");
  }
};
template <typename T>
struct QTypeTraits<DenseArray<T>> {
  static QTypePtr type() {
    static const QType* r =
        MakeQType<DenseArray<T>>(
            "DENSE_ARRAY_" + std::string(GetQType<T>()->name()), GetQType<T>());
    return r;
  }
};
// Sparse arrays are only ever turned into dense ones.
template <typename T>
class Array {
 public:
  Array() = default;
  explicit Array(DenseArray<T> d) : d_(std::move(d)) {}
  Array ToDenseForm() const { return *this; }
  const DenseArray<T>& dense_data() const { return d_; }
  int64_t size() const { return d_.size(); }

 private:
  DenseArray<T> d_;
};
template <typename T>
struct QTypeTraits<Array<T>> {
  static QTypePtr type() {
    static const QType* r = MakeQType<Array<T>>(
        "ARRAY_" + std::string(GetQType<T>()->name()), GetQType<T>());
    return r;
  }
};
template <typename T>
Array<T> CreateArray(const std::vector<OptionalValue<T>>& v) {
  return Array<T>(CreateDenseArray<T>(v));
}
inline bool IsDenseArrayQType(QTypePtr t) {
  return t != nullptr && t->name().substr(0, 12) == "DENSE_ARRAY_";
}
inline bool IsArrayQType(QTypePtr t) {
  return t != nullptr && t->name().substr(0, 6) == "ARRAY_";
}
template <typename T>
QTypePtr GetDenseArrayQType() {
  return GetQType<DenseArray<T>>();
}
template <typename T>
QTypePtr GetWeakFloatQTypeMini() { return nullptr; }

// ---- iteration over several arrays ------------------------------------------
namespace dense_mini {
// Argument types of a callable after the first `Skip` ones.
template <typename Fn, typename... Ts>
struct CallInfo;

template <typename... A>
absl::Status CheckSizes(int64_t n, const DenseArray<A>&... rest) {
  if (((rest.size() != n) || ...)) {
    return SizeMismatchError({n, rest.size()...});
  }
  return absl::OkStatus();
}
// Passes either the plain view or an optional, as the callable demands.
template <typename L, size_t I>
using nth = std::tuple_element_t<I, typename L::tuple>;
template <typename Arg, typename T>
decltype(auto) Pass(const DenseArray<T>& a, int64_t i) {
  if constexpr (is_optional_v<std::decay_t<Arg>>) {
    return a[i];
  } else {
    return a.values[i];
  }
}
template <typename Arg>
constexpr bool kOpt = is_optional_v<std::decay_t<Arg>>;
}  // namespace dense_mini

// Calls fn(id, all_required_present, views...).
template <typename Fn, typename T, typename... Ts>
absl::Status DenseArraysForEach(Fn&& fn, const DenseArray<T>& a,
                                const DenseArray<Ts>&... rest) {
  RETURN_IF_ERROR(dense_mini::CheckSizes(a.size(), rest...));
  using L = typename meta::function_traits<std::decay_t<Fn>>::arg_types;
  auto arrays = std::tie(a, rest...);
  [&]<size_t... I>(std::index_sequence<I...>) {
    for (int64_t i = 0; i < a.size(); ++i) {
      bool present =
          ((dense_mini::kOpt<dense_mini::nth<L, I + 2>> ||
            std::get<I>(arrays).present(i)) && ...);
      fn(i, present,
         dense_mini::Pass<dense_mini::nth<L, I + 2>>(std::get<I>(arrays),
                                                     i)...);
    }
  }(std::make_index_sequence<1 + sizeof...(Ts)>());
  return absl::OkStatus();
}
// Calls fn(id, views...) where all non-optional arguments are present.
template <typename Fn, typename T, typename... Ts>
absl::Status DenseArraysForEachPresent(Fn&& fn, const DenseArray<T>& a,
                                       const DenseArray<Ts>&... rest) {
  RETURN_IF_ERROR(dense_mini::CheckSizes(a.size(), rest...));
  using L = typename meta::function_traits<std::decay_t<Fn>>::arg_types;
  auto arrays = std::tie(a, rest...);
  [&]<size_t... I>(std::index_sequence<I...>) {
    for (int64_t i = 0; i < a.size(); ++i) {
      bool present =
          ((dense_mini::kOpt<dense_mini::nth<L, I + 1>> ||
            std::get<I>(arrays).present(i)) && ...);
      if (present) {
        fn(i, dense_mini::Pass<dense_mini::nth<L, I + 1>>(
                  std::get<I>(arrays), i)...);
      }
    }
  }(std::make_index_sequence<1 + sizeof...(Ts)>());
  return absl::OkStatus();
}

struct DenseOpFlags {
  static constexpr int kRunOnMissing = 1;
  static constexpr int kNoBitmapOffset = 2;
  static constexpr int kNoSizeValidation = 4;
};
// Pointwise operation on dense arrays.
template <int flags, typename Fn, typename ResT>
class DenseOp {
 public:
  explicit DenseOp(Fn fn) : fn_(std::move(fn)) {}
  template <typename T, typename... Ts>
  auto operator()(const DenseArray<T>& a, const DenseArray<Ts>&... rest) const {
    using L = typename meta::function_traits<std::decay_t<Fn>>::arg_types;
    constexpr bool kStatus = IsStatusOrT<
        typename meta::function_traits<std::decay_t<Fn>>::return_type>::value;
    constexpr bool kNoFail =
        !kStatus && ((flags & DenseOpFlags::kNoSizeValidation) ||
                     sizeof...(Ts) == 0);
    using Res = std::conditional_t<kNoFail, DenseArray<ResT>,
                                   absl::StatusOr<DenseArray<ResT>>>;
    if constexpr (!kNoFail) {
      if (auto s = dense_mini::CheckSizes(a.size(), rest...); !s.ok()) {
        return Res(s);
      }
    }
    DenseArrayBuilder<ResT> b(a.size());
    absl::Status status;
    auto arrays = std::tie(a, rest...);
    [&]<size_t... I>(std::index_sequence<I...>) {
      for (int64_t i = 0; i < a.size(); ++i) {
        bool present = ((dense_mini::kOpt<dense_mini::nth<L, I>> ||
                         std::get<I>(arrays).present(i)) && ...);
        if (!present) continue;
        auto r = fn_(dense_mini::Pass<dense_mini::nth<L, I>>(
            std::get<I>(arrays), i)...);
        if constexpr (kStatus) {
          if (!r.ok()) {
            status = r.status();
            return;
          }
          b.Set(i, *r);
        } else {
          b.Set(i, r);
        }
      }
    }(std::make_index_sequence<1 + sizeof...(Ts)>());
    if constexpr (!kNoFail) {
      if (!status.ok()) return Res(status);
    }
    return Res(std::move(b).Build());
  }

 private:
  Fn fn_;
};
namespace dense_mini {
template <typename R>
struct OpResult {
  using S = strip_optional_t<meta::strip_template_t<absl::StatusOr, R>>;
  using V = meta::strip_template_t<std::optional, S>;
  using type = std::conditional_t<std::is_same_v<V, absl::string_view>, Text, V>;
};
}  // namespace dense_mini
template <int flags = 0, typename Fn>
auto CreateDenseOp(Fn fn, RawBufferFactory* = nullptr) {
  using R = typename meta::function_traits<std::decay_t<Fn>>::return_type;
  return DenseOp<flags, Fn, typename dense_mini::OpResult<R>::type>(
      std::move(fn));
}
template <typename Fn, typename ResT>
auto CreateDenseOp(Fn fn, RawBufferFactory* = nullptr) {
  return DenseOp<0, Fn, ResT>(std::move(fn));
}
template <int flags = 0, typename ResT, typename Fn>
auto CreateDenseOp(Fn fn, RawBufferFactory* = nullptr) {
  return DenseOp<flags, Fn, ResT>(std::move(fn));
}
template <int flags, typename A, typename ResT, typename Fn>
  requires std::is_same_v<A, Fn>
auto CreateDenseOp(Fn fn, RawBufferFactory* = nullptr) {
  return DenseOp<flags, Fn, ResT>(std::move(fn));
}

// ---- edges ------------------------------------------------------------------
class DenseArrayEdge {
 public:
  enum EdgeType { MAPPING = 1, SPLIT_POINTS = 2 };
  DenseArrayEdge() : type_(MAPPING), parent_size_(0), child_size_(0) {}
  static absl::StatusOr<DenseArrayEdge> FromSplitPoints(DenseArray<int64_t> s) {
    if (!s.IsFull()) {
      return absl::InvalidArgumentError("split points must be full");
    }
    if (s.empty()) {
      return absl::InvalidArgumentError(
          "split points array must have at least 1 element");
    }
    if (s.values[0] != 0) {
      return absl::InvalidArgumentError(
          "split points array must have first element equal to 0");
    }
    for (int64_t i = 1; i < s.size(); ++i) {
      if (s.values[i] < s.values[i - 1]) {
        return absl::InvalidArgumentError("split points must be sorted");
      }
    }
    return UnsafeFromSplitPoints(std::move(s));
  }
  static DenseArrayEdge UnsafeFromSplitPoints(DenseArray<int64_t> s) {
    int64_t p = s.size() - 1, c = s.values.back();
    return DenseArrayEdge(SPLIT_POINTS, p, c, std::move(s));
  }
  static absl::StatusOr<DenseArrayEdge> FromMapping(DenseArray<int64_t> m,
                                                    int64_t parent_size) {
    if (parent_size < 0) {
      return absl::InvalidArgumentError("parent_size can not be negative");
    }
    for (int64_t i = 0; i < m.size(); ++i) {
      if (m.present(i)) {
        if (m.values[i] < 0) {
          return absl::InvalidArgumentError("mapping can't contain negative values");
        }
        if (m.values[i] >= parent_size) {
          return absl::InvalidArgumentError("parent_size < max mapping value");
        }
      }
    }
    return UnsafeFromMapping(std::move(m), parent_size);
  }
  static DenseArrayEdge UnsafeFromMapping(DenseArray<int64_t> m,
                                          int64_t parent_size) {
    int64_t c = m.size();
    return DenseArrayEdge(MAPPING, parent_size, c, std::move(m));
  }
  static absl::StatusOr<DenseArrayEdge> FromUniformGroups(
      int64_t parent_size, int64_t group_size, RawBufferFactory* = nullptr) {
    if (parent_size < 0 || group_size < 0) {
      return absl::InvalidArgumentError("parent_size and group_size cannot be negative");
    }
    std::vector<int64_t> s;
    for (int64_t i = 0; i <= parent_size; ++i) s.push_back(i * group_size);
    return UnsafeFromSplitPoints(CreateFullDenseArray<int64_t>(s));
  }
  static absl::StatusOr<DenseArrayEdge> ComposeEdges(
      absl::Span<const DenseArrayEdge> edges, RawBufferFactory* = nullptr) {
    if (edges.empty()) {
      return absl::InvalidArgumentError("at least one edge must be present");
    }
    for (size_t i = 1; i < edges.size(); ++i) {
      if (edges[i].parent_size() != edges[i - 1].child_size()) {
        return absl::InvalidArgumentError("incompatible edges");
      }
    }
    bool split = true;
    for (const auto& e : edges) split &= e.edge_type() == SPLIT_POINTS;
    if (split) {
      std::vector<int64_t> pts;
      for (int64_t i = 0; i <= edges[0].parent_size(); ++i) {
        int64_t p = i;
        for (const auto& e : edges) p = e.edge_values().values[p];
        pts.push_back(p);
      }
      return UnsafeFromSplitPoints(CreateFullDenseArray<int64_t>(pts));
    }
    DenseArrayBuilder<int64_t> b(edges.back().child_size());
    for (int64_t i = 0; i < edges.back().child_size(); ++i) {
      OptionalValue<int64_t> p(i);
      for (size_t k = edges.size(); k-- > 0 && p.present;) {
        p = edges[k].Parent(p.value);
      }
      b.Set(i, p);
    }
    return UnsafeFromMapping(std::move(b).Build(), edges[0].parent_size());
  }
  EdgeType edge_type() const { return type_; }
  int64_t parent_size() const { return parent_size_; }
  int64_t child_size() const { return child_size_; }
  const DenseArray<int64_t>& edge_values() const { return values_; }
  int64_t split_size(int64_t i) const {
    return values_.values[i + 1] - values_.values[i];
  }
  OptionalValue<int64_t> Parent(int64_t child) const {
    if (type_ == MAPPING) return values_[child];
    auto s = values_.values.span();
    return int64_t(std::upper_bound(s.begin(), s.end(), child) - s.begin() - 1);
  }
  absl::StatusOr<DenseArrayEdge> ToSplitPointsEdge(RawBufferFactory* = nullptr)
      const {
    if (type_ == SPLIT_POINTS) return *this;
    DenseArrayBuilder<int64_t> b(parent_size_ + 1);
    std::vector<int64_t> pts(parent_size_ + 1, 0);
    int64_t last = 0;
    for (int64_t i = 0; i < child_size_; ++i) {
      if (!values_.present(i) || values_.values[i] < last) {
        return absl::InvalidArgumentError(
            "expected sorted full mapping");
      }
      last = values_.values[i];
      pts[last + 1]++;
    }
    for (int64_t i = 0; i < parent_size_; ++i) pts[i + 1] += pts[i];
    return UnsafeFromSplitPoints(CreateFullDenseArray<int64_t>(pts));
  }
  DenseArrayEdge ToMappingEdge(RawBufferFactory* = nullptr) const {
    if (type_ == MAPPING) return *this;
    std::vector<int64_t> m;
    for (int64_t i = 0; i < parent_size_; ++i) {
      for (int64_t k = 0; k < split_size(i); ++k) m.push_back(i);
    }
    return UnsafeFromMapping(CreateFullDenseArray<int64_t>(m), parent_size_);
  }
  bool IsEquivalentTo(const DenseArrayEdge& o) const {
    if (parent_size_ != o.parent_size_ || child_size_ != o.child_size_) {
      return false;
    }
    return ArraysAreEquivalent(ToMappingEdge().values_,
                               o.ToMappingEdge().values_);
  }
  void ArollaFingerprint(FingerprintHasher* h) const {
    h->Combine(type_, parent_size_, child_size_, values_);
  }

 private:
  DenseArrayEdge(EdgeType t, int64_t p, int64_t c, DenseArray<int64_t> v)
      : type_(t), parent_size_(p), child_size_(c), values_(std::move(v)) {}
  EdgeType type_;
  int64_t parent_size_;
  int64_t child_size_;
  DenseArray<int64_t> values_;
};
class DenseArrayGroupScalarEdge {
 public:
  DenseArrayGroupScalarEdge() : n_(0) {}
  explicit DenseArrayGroupScalarEdge(int64_t n) : n_(n) {}
  int64_t child_size() const { return n_; }
  int64_t parent_size() const { return 1; }

 private:
  int64_t n_;
};

// ---- casts and string ops used for schema casting ---------------------------
template <typename DST>
struct CastOp {
  using run_on_missing = std::true_type;
  template <typename SRC>
  auto operator()(SRC v) const {
    if constexpr (std::is_integral_v<DST> && std::is_floating_point_v<SRC>) {
      using R = absl::StatusOr<DST>;
      double d = static_cast<double>(v);
      if (!(d > -9.3e18 && d < 9.3e18) ||
          !(std::trunc(d) >= static_cast<double>(std::numeric_limits<DST>::min()) &&
            std::trunc(d) < -static_cast<double>(std::numeric_limits<DST>::min()))) {
        return R(absl::InvalidArgumentError(absl::StrCat(
            "cannot cast ", Repr(v), " to int", sizeof(DST) * 8)));
      }
      return R(static_cast<DST>(v));
    } else if constexpr (std::is_same_v<DST, int32_t> &&
                         std::is_same_v<SRC, int64_t>) {
      using R = absl::StatusOr<DST>;
      if (v < std::numeric_limits<int32_t>::min() ||
          v > std::numeric_limits<int32_t>::max()) {
        return R(absl::InvalidArgumentError(
            absl::StrCat("cannot cast ", Repr(v), " to int32")));
      }
      return R(static_cast<DST>(v));
    } else {
      return static_cast<DST>(v);
    }
  }
};
struct ToBoolOp {
  template <typename T>
  bool operator()(const T& v) const {
    return v != 0;
  }
};
absl::StatusOr<int64_t> ParseIntMini(absl::string_view s, int bits);
absl::StatusOr<double> ParseFloatMini(absl::string_view s, int bits);
struct StringsParseInt32 {
  absl::StatusOr<int32_t> operator()(absl::string_view s) const {
    ASSIGN_OR_RETURN(int64_t v, ParseIntMini(s, 32));
    return static_cast<int32_t>(v);
  }
};
struct StringsParseInt64 {
  absl::StatusOr<int64_t> operator()(absl::string_view s) const {
    return ParseIntMini(s, 64);
  }
};
struct StringsParseFloat32 {
  absl::StatusOr<float> operator()(absl::string_view s) const {
    ASSIGN_OR_RETURN(double v, ParseFloatMini(s, 32));
    return static_cast<float>(v);
  }
};
struct StringsParseFloat64 {
  absl::StatusOr<double> operator()(absl::string_view s) const {
    return ParseFloatMini(s, 64);
  }
};
bool IsUtf8Mini(absl::string_view s);
struct AsTextOp {
  Text operator()(absl::string_view s) const {  // bytes
    return Text(absl::StrCat("b'", absl::CHexEscape(s), "'"));
  }
  Text operator()(const Bytes& s) const { return (*this)(absl::string_view(s)); }
  Text operator()(const Text& s) const { return s; }
  Text operator()(Unit) const { return Text("present"); }
  Text operator()(bool v) const { return Text(v ? "true" : "false"); }
  Text operator()(int32_t v) const { return Text(absl::StrCat(v)); }
  Text operator()(int64_t v) const { return Text(absl::StrCat(v)); }
  Text operator()(float v) const { return Text(ShortestFloat(v)); }
  Text operator()(double v) const { return Text(ShortestDouble(v)); }
};
struct EncodeOp {
  Bytes operator()(absl::string_view s) const { return Bytes(s); }
  Bytes operator()(const Text& s) const { return Bytes(s.view()); }
};
struct DecodeOp {
  absl::StatusOr<Text> operator()(absl::string_view s,
                                  absl::string_view errors = "strict") const {
    if (errors != "strict" && errors != "ignore" && errors != "replace") {
      return absl::InvalidArgumentError("unexpected `errors` value");
    }
    if (IsUtf8Mini(s)) return Text(s);
    if (errors == "strict") {
      return absl::InvalidArgumentError("invalid UTF-8");
    }
    std::string r;
    while (!s.empty()) {
      size_t n = 1;
      while (n <= 4 && n <= s.size() && !IsUtf8Mini(s.substr(0, n))) ++n;
      if (n > 4 || n > s.size()) {
        if (errors == "replace") r += "\xef\xbf\xbd";
        n = 1;
      } else {
        r += std::string(s.substr(0, n));
      }
      s.remove_prefix(n);
    }
    return Text(r);
  }
};
}  // namespace arolla
#endif
