// made.h - readers and dictionaries made from a file
//
// What neither the program nor its tests use may be gone one day; then the
// same is done in two steps.

#ifndef HARNESS_MADE_H
#define HARNESS_MADE_H

#include "dict/dict.h"
#include "parser/parser.h"

#include <memory>

template<typename T> auto
MakeParser (const char* path, bool breaks, int)
    -> decltype (T (path, breaks), std::unique_ptr<T>())
{
    return std::unique_ptr<T> (new T (path, breaks));
}

template<typename T> std::unique_ptr<T>
MakeParser (const char* path, bool breaks, long)
{
    std::unique_ptr<T> p (new T (breaks));
    p->loadExceptDict (path);
    return p;
}

template<typename T> auto
MakeDict (const char* path, int) -> decltype (T (path), std::unique_ptr<T>())
{
    return std::unique_ptr<T> (new T (path));
}

template<typename T> std::unique_ptr<T>
MakeDict (const char* path, long)
{
    std::unique_ptr<T> d (new T);
    d->open (path);
    return d;
}

template<typename T> auto
CloseDict (std::unique_ptr<T>& d, int) -> decltype (d->close(), void())
{
    d->close();
}

template<typename T> void
CloseDict (std::unique_ptr<T>& d, long)
{
    d.reset (new T);
}

#endif
