// Definitions of the parts of libstdc++/libc that live in the shared libraries. Linked on demand into every harness.
#include <cstdint>
#include <cstring>
#include <list>
#include <map>
#include <string>
#include <unordered_map>

template class std::basic_string<char>;

extern "C" int strcmp(char const* a, char const* b)
{
    while(*a && *a == *b)
        ++a, ++b;
    return (unsigned char) *a - (unsigned char) *b;
}
extern "C" char* strerror(int)
{
    return (char*) "error";
}

namespace std
{
    namespace __detail
    {
        void _List_node_base::_M_hook(_List_node_base* const p) noexcept
        {
            _M_next = p;
            _M_prev = p->_M_prev;
            p->_M_prev->_M_next = this;
            p->_M_prev = this;
        }
        void _List_node_base::_M_unhook() noexcept
        {
            _List_node_base* n = _M_next;
            _List_node_base* p = _M_prev;
            p->_M_next = n;
            n->_M_prev = p;
        }
        void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
        {
            if(this != l)
            {
                l->_M_prev->_M_next = this;
                f->_M_prev->_M_next = l;
                _M_prev->_M_next = f;
                _List_node_base* t = _M_prev;
                _M_prev = l->_M_prev;
                l->_M_prev = f->_M_prev;
                f->_M_prev = t;
            }
        }
        void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
        {
            if(x._M_next != &x)
            {
                if(y._M_next != &y)
                {
                    std::swap(x._M_next, y._M_next);
                    std::swap(x._M_prev, y._M_prev);
                    x._M_next->_M_prev = x._M_prev->_M_next = &x;
                    y._M_next->_M_prev = y._M_prev->_M_next = &y;
                }
                else
                {
                    y._M_next = x._M_next;
                    y._M_prev = x._M_prev;
                    y._M_next->_M_prev = y._M_prev->_M_next = &y;
                    x._M_next = x._M_prev = &x;
                }
            }
            else if(y._M_next != &y)
            {
                x._M_next = y._M_next;
                x._M_prev = y._M_prev;
                x._M_next->_M_prev = x._M_prev->_M_next = &x;
                y._M_next = y._M_prev = &y;
            }
        }

        std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const
        {
            std::size_t r = n < 5 ? 5 : n | 1;
            _M_next_resize = (std::size_t) r;
            return r;
        }
        std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(
            std::size_t bkt,
            std::size_t elt,
            std::size_t ins) const
        {
            if(elt + ins > bkt)
            {
                std::size_t r = 2 * bkt + 1;
                if(r < elt + ins)
                    r = elt + ins;
                if(r < 11)
                    r = 11;
                return {true, r};
            }
            return {false, 0};
        }
    } // namespace __detail

    // red-black tree primitives; the tree is kept as a plain search tree (all nodes black), which has the same
    // observable order
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept
    {
        if(x->_M_right)
        {
            x = x->_M_right;
            while(x->_M_left)
                x = x->_M_left;
            return x;
        }
        _Rb_tree_node_base* y = x->_M_parent;
        while(x == y->_M_right)
        {
            x = y;
            y = y->_M_parent;
        }
        if(x->_M_right != y)
            x = y;
        return x;
    }
    _Rb_tree_node_base const* _Rb_tree_increment(_Rb_tree_node_base const* x) noexcept
    {
        return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
    }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept
    {
        if(x->_M_color == _S_red && x->_M_parent->_M_parent == x)
            return x->_M_right;
        if(x->_M_left)
        {
            _Rb_tree_node_base* y = x->_M_left;
            while(y->_M_right)
                y = y->_M_right;
            return y;
        }
        _Rb_tree_node_base* y = x->_M_parent;
        while(x == y->_M_left)
        {
            x = y;
            y = y->_M_parent;
        }
        return y;
    }
    _Rb_tree_node_base const* _Rb_tree_decrement(_Rb_tree_node_base const* x) noexcept
    {
        return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
    }
    void _Rb_tree_insert_and_rebalance(
        bool const left,
        _Rb_tree_node_base* x,
        _Rb_tree_node_base* p,
        _Rb_tree_node_base& h) noexcept
    {
        x->_M_parent = p;
        x->_M_left = x->_M_right = nullptr;
        x->_M_color = _S_black;
        if(left)
        {
            p->_M_left = x;
            if(p == &h)
            {
                h._M_parent = x;
                h._M_right = x;
            }
            else if(p == h._M_left)
                h._M_left = x;
        }
        else
        {
            p->_M_right = x;
            if(p == h._M_right)
                h._M_right = x;
        }
    }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept
    {
        auto replace = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v)
        {
            if(h._M_parent == u)
                h._M_parent = v;
            else if(u->_M_parent->_M_left == u)
                u->_M_parent->_M_left = v;
            else
                u->_M_parent->_M_right = v;
            if(v)
                v->_M_parent = u->_M_parent;
        };
        if(h._M_left == z)
            h._M_left = z->_M_right ? z->_M_right : z->_M_parent;
        if(h._M_left != &h)
            while(h._M_left->_M_left)
                h._M_left = h._M_left->_M_left;
        if(h._M_right == z)
            h._M_right = z->_M_left ? z->_M_left : z->_M_parent;
        if(h._M_right != &h)
            while(h._M_right->_M_right)
                h._M_right = h._M_right->_M_right;
        if(!z->_M_left)
            replace(z, z->_M_right);
        else if(!z->_M_right)
            replace(z, z->_M_left);
        else
        {
            _Rb_tree_node_base* y = z->_M_right;
            while(y->_M_left)
                y = y->_M_left;
            if(y->_M_parent != z)
            {
                replace(y, y->_M_right);
                y->_M_right = z->_M_right;
                y->_M_right->_M_parent = y;
            }
            replace(z, y);
            y->_M_left = z->_M_left;
            y->_M_left->_M_parent = y;
        }
        if(!h._M_parent)
        {
            h._M_left = &h;
            h._M_right = &h;
        }
        return z;
    }
    std::size_t _Hash_bytes(void const* p, std::size_t n, std::size_t seed)
    {
        std::size_t h = seed;
        for(std::size_t i = 0; i < n; ++i)
            h = h * 31 + ((unsigned char const*) p)[i];
        return h;
    }
} // namespace std
// errno
extern "C" int* __errno_location() noexcept
{
    static int e;
    return &e;
}
