// Generated from CGAL 5.6 by renaming: old CGAL gave Triangulation_ds_edge_iterator_2 a second parameter.
#pragma once
#include <CGAL/license/TDS_2.h>
#include <iterator>
#include <CGAL/assertions.h>
#include <CGAL/tags.h>
#define CGAL_TRIANGULATION_DS_ITERATORS_2_H
namespace CGAL {
// b == true: every edge once; b == false: every half edge.
template<class Tds, bool b = true>
class Triangulation_ds_edge_iterator_2 {
public:
    typedef typename Tds::Edge Edge; typedef typename Tds::Face_iterator Face_iterator; typedef typename Tds::Face_handle Face_handle;
    typedef Edge value_type; typedef Edge *pointer; typedef Edge &reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    typedef std::bidirectional_iterator_tag iterator_category;
private:
    typedef Triangulation_ds_edge_iterator_2 Self;
    const Tds *t_ = nullptr; Face_iterator pos_; mutable Edge e_;
    int first() const { return t_->dimension() == 1 ? 2 : 0; }
    bool ours() const { return t_->dimension() == 1 || !b || Face_handle(pos_) < pos_->neighbor(e_.second); }
    void inc() { if (t_->dimension() == 1) ++pos_; else if (e_.second == 2) { e_.second = 0; ++pos_; } else ++e_.second; }
    void dec() { if (t_->dimension() == 1) --pos_; else if (e_.second == 0) { e_.second = 2; --pos_; } else --e_.second; }
public:
    Triangulation_ds_edge_iterator_2() {}
    Triangulation_ds_edge_iterator_2(const Tds *t) : t_(t) {
        e_.second = 0; if (t->dimension() <= 0) { pos_ = t->faces().end(); return; }
        pos_ = t->faces().begin(); e_.second = first(); while (pos_ != t->faces().end() && !ours()) inc();
    }
    Triangulation_ds_edge_iterator_2(const Tds *t, int) : t_(t) { pos_ = t->faces().end(); e_.second = first(); }
    bool operator==(const Self &o) const { return t_ == o.t_ && pos_ == o.pos_ && e_.second == o.e_.second; }
    bool operator!=(const Self &o) const { return !(*this == o); }
    Self &operator++() { do inc(); while (pos_ != t_->faces().end() && !ours()); return *this; }
    Self &operator--() { do dec(); while (!ours() && *this != Self(t_)); return *this; }
    Self operator++(int) { Self o(*this); ++*this; return o; }
    Self operator--(int) { Self o(*this); --*this; return o; }
    Edge *operator->() const { e_.first = pos_; return &e_; }
    Edge &operator*() const { e_.first = pos_; return e_; }
};
}
