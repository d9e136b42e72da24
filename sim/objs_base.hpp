// Obj implementation helper.  Include only from instrumented files.
#pragma once
#include "h.hpp"
#include "kinds.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <istream>
#include <memory>
#include <ostream>

namespace h
{
template <typename T>
struct ObjOf : Obj {
    std::unique_ptr<T> p;
    void save(std::ostream &o, const Obj *second) const override
    {
        InLib l;
        boost::archive::binary_oarchive a(o);
        a << *p;
        if (second) {
            a << *static_cast<const ObjOf *>(second)->p;
        }
    }
    void load(std::istream &i, Obj *second) override
    {
        InLib l;
        boost::archive::binary_iarchive a(i);
        a >> *p;
        if (second) {
            a >> *static_cast<ObjOf *>(second)->p;
        }
    }
    ~ObjOf() override
    {
        InLib l;
        p.reset();
    }
};
} // namespace h
