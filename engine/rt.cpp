// Models of the out-of-line parts of libstdc++ that the code under test uses. Executed symbolically by symx; the native
// replay uses the real library.
#include <cmath>
#include <list>
#include <map>
#include <string>
#include <unordered_map>

namespace std {
    namespace __detail {
        static const unsigned long primes[] = {2,   3,   5,   7,   11,  13,  17,  19,  23,  29,  31,  37,  41,  43,  47,  53,
                                               59,  61,  67,  71,  73,  79,  83,  89,  97,  103, 109, 113, 127, 137, 139, 149,
                                               157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409,
                                               439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289,
                                               1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469};

        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
            static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
            if (n < sizeof(fast)) {
                if (n == 0) return 1;
                _M_next_resize = (size_t) std::floor((double) fast[n] * (double) _M_max_load_factor);
                return fast[n];
            }
            for (unsigned long p : primes)
                if (p >= n) {
                    _M_next_resize = (size_t) std::floor((double) p * (double) _M_max_load_factor);
                    return p;
                }
            __builtin_trap();
        }

        std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
            if (ne + ni > _M_next_resize) {
                double minb = (double) std::max<size_t>(ne + ni, _M_next_resize ? 0 : 11) / (double) _M_max_load_factor;
                if (minb >= (double) nb) return {true, _M_next_bkt(std::max<size_t>((size_t) std::floor(minb) + 1, nb * 2))};
                _M_next_resize = (size_t) std::floor((double) nb * (double) _M_max_load_factor);
                return {false, 0};
            }
            return {false, 0};
        }

        void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
            this->_M_next = p;
            this->_M_prev = p->_M_prev;
            p->_M_prev->_M_next = this;
            p->_M_prev = this;
        }

        void _List_node_base::_M_unhook() noexcept {
            _List_node_base* n = this->_M_next;
            _List_node_base* p = this->_M_prev;
            p->_M_next = n;
            n->_M_prev = p;
        }

        void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
            if (this != last) {
                last->_M_prev->_M_next = this;
                first->_M_prev->_M_next = last;
                this->_M_prev->_M_next = first;
                _List_node_base* tmp = this->_M_prev;
                this->_M_prev = last->_M_prev;
                last->_M_prev = first->_M_prev;
                first->_M_prev = tmp;
            }
        }

        void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
            if (x._M_next != &x) {
                if (y._M_next != &y) {
                    std::swap(x._M_next, y._M_next);
                    std::swap(x._M_prev, y._M_prev);
                    x._M_next->_M_prev = x._M_prev->_M_next = &x;
                    y._M_next->_M_prev = y._M_prev->_M_next = &y;
                } else {
                    y._M_next = x._M_next;
                    y._M_prev = x._M_prev;
                    y._M_next->_M_prev = y._M_prev->_M_next = &y;
                    x._M_next = x._M_prev = &x;
                }
            } else if (y._M_next != &y) {
                x._M_next = y._M_next;
                x._M_prev = y._M_prev;
                x._M_next->_M_prev = x._M_prev->_M_next = &x;
                y._M_next = y._M_prev = &y;
            }
        }

        void _List_node_base::_M_reverse() noexcept {
            _List_node_base* tmp = this;
            do {
                std::swap(tmp->_M_next, tmp->_M_prev);
                tmp = tmp->_M_prev;
            } while (tmp != this);
        }
    }

    // Binary search trees without rebalancing (the observable order is the same)
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
        if (x->_M_right) {
            x = x->_M_right;
            while (x->_M_left) x = x->_M_left;
            return x;
        }
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) {
            x = y;
            y = y->_M_parent;
        }
        if (x->_M_right != y) x = y;
        return x;
    }

    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
        return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
    }

    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
        if (x->_M_left) {
            _Rb_tree_node_base* y = x->_M_left;
            while (y->_M_right) y = y->_M_right;
            return y;
        }
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left) {
            x = y;
            y = y->_M_parent;
        }
        return y;
    }

    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
        return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
    }

    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                       _Rb_tree_node_base& h) throw() {
        x->_M_parent = p;
        x->_M_left = nullptr;
        x->_M_right = nullptr;
        x->_M_color = _S_black;
        if (left) {
            p->_M_left = x;
            if (p == &h) {
                h._M_parent = x;
                h._M_right = x;
            } else if (p == h._M_left) h._M_left = x;
        } else {
            p->_M_right = x;
            if (p == h._M_right) h._M_right = x;
        }
    }

    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
        auto replace = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) {
            if (h._M_parent == u) h._M_parent = v;
            else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
            else u->_M_parent->_M_right = v;
            if (v) v->_M_parent = u->_M_parent;
        };
        if (h._M_left == z) {
            _Rb_tree_node_base* n = z->_M_right;
            if (n)
                while (n->_M_left) n = n->_M_left;
            h._M_left = n ? n : z->_M_parent;
        }
        if (h._M_right == z) {
            _Rb_tree_node_base* n = z->_M_left;
            if (n)
                while (n->_M_right) n = n->_M_right;
            h._M_right = n ? n : z->_M_parent;
        }
        if (!z->_M_left) replace(z, z->_M_right);
        else if (!z->_M_right) replace(z, z->_M_left);
        else {
            _Rb_tree_node_base* y = z->_M_right;
            while (y->_M_left) y = y->_M_left;
            if (y->_M_parent != z) {
                replace(y, y->_M_right);
                y->_M_right = z->_M_right;
                y->_M_right->_M_parent = y;
            }
            replace(z, y);
            y->_M_left = z->_M_left;
            y->_M_left->_M_parent = y;
        }
        return z;
    }

    size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
        const unsigned char* c = (const unsigned char*) p;
        size_t h = seed;
        for (size_t i = 0; i < n; i++) h = h * 31 + c[i];
        return h;
    }
}
