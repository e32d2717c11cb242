// Stand-in for sfl::segmented_vector (https://github.com/slavenf/sfl-library), which is
// not installed in this sandbox. Same contract as the original where simfil relies on it:
// a vector-like container whose elements live in fixed-size segments, so that references
// to elements stay valid when it grows. Only the standard library is used.
#pragma once

#include <algorithm>
#include <cassert>
#include <compare>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>

namespace sfl
{

template <typename T, std::size_t N, typename Allocator = std::allocator<T>>
class segmented_vector
{
    static_assert(N > 0);

    template <bool Const>
    class iter
    {
        friend class segmented_vector;
        friend class iter<true>;
        using owner_t = std::conditional_t<Const, segmented_vector const*, segmented_vector*>;
        owner_t v_ = nullptr;
        std::size_t i_ = 0;
        iter(owner_t v, std::size_t i) : v_(v), i_(i) {}

    public:
        using iterator_category = std::random_access_iterator_tag;
        using difference_type = std::ptrdiff_t;
        using value_type = T;
        using pointer = std::conditional_t<Const, T const*, T*>;
        using reference = std::conditional_t<Const, T const&, T&>;

        iter() = default;
        iter(iter const&) = default;
        iter& operator=(iter const&) = default;
        template <bool C = Const, typename = std::enable_if_t<C>>
        iter(iter<false> const& o) : v_(o.v_), i_(o.i_) {}

        reference operator*() const { return *v_->ptr(i_); }
        pointer operator->() const { return v_->ptr(i_); }
        reference operator[](difference_type d) const { return *v_->ptr(i_ + d); }
        iter& operator++() { ++i_; return *this; }
        iter operator++(int) { auto t = *this; ++i_; return t; }
        iter& operator--() { --i_; return *this; }
        iter operator--(int) { auto t = *this; --i_; return t; }
        iter& operator+=(difference_type d) { i_ += d; return *this; }
        iter& operator-=(difference_type d) { i_ -= d; return *this; }
        friend iter operator+(iter a, difference_type d) { a += d; return a; }
        friend iter operator+(difference_type d, iter a) { a += d; return a; }
        friend iter operator-(iter a, difference_type d) { a -= d; return a; }
        friend difference_type operator-(iter const& a, iter const& b)
        {
            return static_cast<difference_type>(a.i_) - static_cast<difference_type>(b.i_);
        }
        friend bool operator==(iter const& a, iter const& b) { return a.i_ == b.i_; }
        friend auto operator<=>(iter const& a, iter const& b) { return a.i_ <=> b.i_; }
    };

public:
    using value_type = T;
    using allocator_type = Allocator;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using reference = T&;
    using const_reference = T const&;
    using pointer = T*;
    using const_pointer = T const*;
    using iterator = iter<false>;
    using const_iterator = iter<true>;
    using reverse_iterator = std::reverse_iterator<iterator>;
    using const_reverse_iterator = std::reverse_iterator<const_iterator>;

    segmented_vector() = default;
    explicit segmented_vector(Allocator const& a) : alloc_(a) {}
    explicit segmented_vector(size_type n) { resize(n); }
    segmented_vector(size_type n, T const& v) { resize(n, v); }
    segmented_vector(std::initializer_list<T> il) { for (auto const& v : il) push_back(v); }
    template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
    segmented_vector(It first, It last) { for (; first != last; ++first) emplace_back(*first); }
    segmented_vector(segmented_vector const& o) : alloc_(o.alloc_) { for (auto const& v : o) push_back(v); }
    segmented_vector(segmented_vector&& o) noexcept
        : alloc_(std::move(o.alloc_)), segs_(std::move(o.segs_)), size_(std::exchange(o.size_, 0))
    {
        o.segs_.clear();
    }
    segmented_vector& operator=(segmented_vector const& o)
    {
        if (this != &o) {
            segmented_vector t(o);
            swap(t);
        }
        return *this;
    }
    segmented_vector& operator=(segmented_vector&& o) noexcept
    {
        if (this != &o) {
            clear();
            shrink_to_fit();
            swap(o);
        }
        return *this;
    }
    segmented_vector& operator=(std::initializer_list<T> il) { assign(il.begin(), il.end()); return *this; }
    ~segmented_vector()
    {
        clear();
        release(0);
    }

    template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
    void assign(It first, It last) { clear(); for (; first != last; ++first) emplace_back(*first); }
    void assign(size_type n, T const& v) { T c(v); clear(); resize(n, c); }
    void assign(std::initializer_list<T> il) { assign(il.begin(), il.end()); }

    allocator_type get_allocator() const { return alloc_; }

    iterator begin() noexcept { return {this, 0}; }
    iterator end() noexcept { return {this, size_}; }
    const_iterator begin() const noexcept { return {this, 0}; }
    const_iterator end() const noexcept { return {this, size_}; }
    const_iterator cbegin() const noexcept { return {this, 0}; }
    const_iterator cend() const noexcept { return {this, size_}; }
    reverse_iterator rbegin() noexcept { return reverse_iterator(end()); }
    reverse_iterator rend() noexcept { return reverse_iterator(begin()); }
    const_reverse_iterator rbegin() const noexcept { return const_reverse_iterator(end()); }
    const_reverse_iterator rend() const noexcept { return const_reverse_iterator(begin()); }
    const_reverse_iterator crbegin() const noexcept { return const_reverse_iterator(end()); }
    const_reverse_iterator crend() const noexcept { return const_reverse_iterator(begin()); }
    iterator nth(size_type i) { return {this, i}; }
    const_iterator nth(size_type i) const { return {this, i}; }
    size_type index_of(const_iterator it) const { return it.i_; }

    [[nodiscard]] bool empty() const noexcept { return size_ == 0; }
    [[nodiscard]] size_type size() const noexcept { return size_; }
    [[nodiscard]] size_type max_size() const noexcept { return std::numeric_limits<difference_type>::max() / sizeof(T); }
    [[nodiscard]] size_type capacity() const noexcept { return segs_.size() * N; }
    [[nodiscard]] size_type available() const noexcept { return capacity() - size_; }

    void reserve(size_type n)
    {
        while (capacity() < n)
            segs_.push_back(std::allocator_traits<Allocator>::allocate(alloc_, N));
    }
    void shrink_to_fit()
    {
        release((size_ + N - 1) / N);
        segs_.shrink_to_fit();
    }

    reference at(size_type i)
    {
        if (i >= size_)
            throw std::out_of_range("sfl::segmented_vector::at");
        return *ptr(i);
    }
    const_reference at(size_type i) const
    {
        if (i >= size_)
            throw std::out_of_range("sfl::segmented_vector::at");
        return *ptr(i);
    }
    reference operator[](size_type i)
    {
        bounds(i);
        return *ptr(i);
    }
    const_reference operator[](size_type i) const
    {
        bounds(i);
        return *ptr(i);
    }
    reference front() { return (*this)[0]; }
    const_reference front() const { return (*this)[0]; }
    reference back() { return (*this)[size_ - 1]; }
    const_reference back() const { return (*this)[size_ - 1]; }

    template <typename... Args>
    reference emplace_back(Args&&... args)
    {
        reserve(size_ + 1);
        T* p = ptr(size_);
        if constexpr (std::is_constructible_v<T, Args&&...>)
            ::new (static_cast<void*>(p)) T(std::forward<Args>(args)...);
        else
            ::new (static_cast<void*>(p)) T{std::forward<Args>(args)...};
        ++size_;
        return *p;
    }
    void push_back(T const& v) { emplace_back(v); }
    void push_back(T&& v) { emplace_back(std::move(v)); }
    void pop_back()
    {
        bounds(size_ - 1);
        std::destroy_at(ptr(--size_));
    }

    template <typename... Args>
    iterator emplace(const_iterator pos, Args&&... args)
    {
        auto i = pos.i_;
        emplace_back(std::forward<Args>(args)...);
        std::rotate(begin() + i, end() - 1, end());
        return begin() + i;
    }
    iterator insert(const_iterator pos, T const& v) { T c(v); return emplace(pos, std::move(c)); }
    iterator insert(const_iterator pos, T&& v) { return emplace(pos, std::move(v)); }
    template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
    iterator insert(const_iterator pos, It first, It last)
    {
        auto i = pos.i_;
        auto old = size_;
        for (; first != last; ++first)
            emplace_back(*first);
        std::rotate(begin() + i, begin() + old, end());
        return begin() + i;
    }
    iterator erase(const_iterator pos) { return erase(pos, pos + 1); }
    iterator erase(const_iterator first, const_iterator last)
    {
        auto i = first.i_, n = last.i_ - first.i_;
        if (n) {
            std::move(begin() + i + n, end(), begin() + i);
            while (n--)
                pop_back();
        }
        return begin() + i;
    }
    void resize(size_type n)
    {
        reserve(n);
        while (size_ > n)
            pop_back();
        while (size_ < n)
            emplace_back();
    }
    void resize(size_type n, T const& v)
    {
        reserve(n);
        while (size_ > n)
            pop_back();
        while (size_ < n)
            emplace_back(v);
    }
    void clear() noexcept
    {
        while (size_ > 0)
            std::destroy_at(ptr(--size_));
    }
    void swap(segmented_vector& o) noexcept
    {
        std::swap(alloc_, o.alloc_);
        segs_.swap(o.segs_);
        std::swap(size_, o.size_);
    }
    friend void swap(segmented_vector& a, segmented_vector& b) noexcept { a.swap(b); }

    friend bool operator==(segmented_vector const& a, segmented_vector const& b)
    {
        return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
    }
    friend bool operator<(segmented_vector const& a, segmented_vector const& b)
    {
        return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
    }

private:
    // Out-of-range operator[] is undefined in the original; here it stops the program,
    // so that a bad index in simfil cannot pass silently.
    void bounds(size_type i) const
    {
        if (i >= size_)
            __builtin_trap();
    }
    T* ptr(size_type i) { return segs_[i / N] + i % N; }
    T const* ptr(size_type i) const { return segs_[i / N] + i % N; }
    void release(size_type keep)
    {
        while (segs_.size() > keep) {
            std::allocator_traits<Allocator>::deallocate(alloc_, segs_.back(), N);
            segs_.pop_back();
        }
    }

    [[no_unique_address]] Allocator alloc_{};
    std::vector<T*> segs_;
    size_type size_ = 0;
};

}  // namespace sfl
