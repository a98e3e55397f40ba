// Peg with the context that builds a tree of what was captured, over the source it is used with
#include <new>
#include <variant.h>
#include <peg_ast.h>

using PegX = PegContext::PegT;
using Rule = PegContext::Rule;
using PegexpX = PegContext::PegexpT;
extern "C" void x_none();
extern "C" void x_str(const char* s, int n);
extern "C" void x_array(int n);
extern "C" void x_map(int n);
extern "C" void x_key(const char* s, int n);
extern "C" void x_other(int type);
extern "C" void x_fail(const char* atom, int len, int depth);
extern "C" void x_path(const char* rule);

static void str(void (*f)(const char*, int), const StrVal& s)
{
	StrValIndex	n;
	const char*	p = s.asUTF8(n);
	f(p, n);
}

static void walk(const Variant& v)
{
	switch (v.type())
	{
	case Variant::None:
		x_none();
		break;
	case Variant::String:
		str(x_str, v.as_strval());
		break;
	case Variant::VarArray:
		{
			const VariantArray a = v.as_variant_array();
			x_array(a.length());
			for (int i = 0; i < a.length(); i++)
				walk(a[i]);
			break;
		}
	case Variant::StrVarMap:
		{
			const StrVariantMap m = v.as_variant_map();
			x_map(m.size());
			for (auto i = m.begin(); i != m.end(); i++)
			{
				str(x_key, i->first);
				walk(i->second);
			}
			break;
		}
	default:
		x_other(v.type());
	}
}

struct Run {
	PegMemorySource	source;
	PegMatch	match;
	Run(PegX* peg, const char* text) : source(text), match(peg->parse(source)) {}
};

extern "C" {
unsigned long s_rule() { return sizeof(Rule); }
unsigned long s_peg() { return sizeof(PegX); }
unsigned long s_run() { return sizeof(Run); }
void f_rule(Rule* r, const char* name, const char* pattern, const char** captures) { new (r) Rule(name, PegexpX(pattern), captures); }
void f_peg(PegX* p, Rule* rules, int n) { new (p) PegX(rules, n); }
void f_parse(Run* r, PegX* p, const char* text) { new (r) Run(p, text); }
bool f_failed(Run* r) { return r->match.is_failure(); }
const char* f_at(Run* r) { return r->source.peek(); }
const char* f_reached(Run* r) { return r->match.furthermost_success.peek(); }
long f_bytes(Run* r) { return r->match.furthermost_success.current_byte(); }
long f_line(Run* r) { return r->match.furthermost_success.current_line(); }
long f_column(Run* r) { return r->match.furthermost_success.current_column(); }
void f_walk(Run* r) { walk(r->match.var); }
void f_fails(Run* r)
{
	const PegFailures& f = r->match.failures;
	for (int i = 0; i < f.length(); i++)
	{
		x_fail(f[i].atom, f[i].atom_len, f[i].path.length());
		for (int j = 0; j < f[i].path.length(); j++)
			x_path(f[i].path[j]);
	}
}
void f_done(Run* r) { r->~Run(); }
}

// The parts of std::map that are not in its header. The tree need not be balanced
namespace std {
typedef _Rb_tree_node_base* Node;
Node _Rb_tree_increment(Node x) throw()
{
	if (x->_M_right)
	{
		for (x = x->_M_right; x->_M_left; x = x->_M_left)
			;
		return x;
	}
	Node y = x->_M_parent;
	while (x == y->_M_right)
		x = y, y = y->_M_parent;
	return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
{
	return _Rb_tree_increment(const_cast<Node>(x));
}
Node _Rb_tree_decrement(Node x) throw()
{
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
		return x->_M_right;		// The end
	if (x->_M_left)
	{
		for (x = x->_M_left; x->_M_right; x = x->_M_right)
			;
		return x;
	}
	Node y = x->_M_parent;
	while (x == y->_M_left)
		x = y, y = y->_M_parent;
	return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
{
	return _Rb_tree_decrement(const_cast<Node>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, Node x, Node p, _Rb_tree_node_base& h) throw()
{
	x->_M_parent = p;
	x->_M_left = x->_M_right = 0;
	x->_M_color = _S_black;			// Only the header is red
	if (left)
	{
		p->_M_left = x;			// Also makes leftmost = x if p is the header
		if (p == &h)
		{
			h._M_parent = x;
			h._M_right = x;
		}
		else if (p == h._M_left)
			h._M_left = x;
	}
	else
	{
		p->_M_right = x;
		if (p == h._M_right)
			h._M_right = x;
	}
}
static void replace(Node x, Node y, _Rb_tree_node_base& h)
{
	if (h._M_parent == x)
		h._M_parent = y;
	else if (x->_M_parent->_M_left == x)
		x->_M_parent->_M_left = y;
	else
		x->_M_parent->_M_right = y;
	if (y)
		y->_M_parent = x->_M_parent;
}
Node _Rb_tree_rebalance_for_erase(Node const z, _Rb_tree_node_base& h) throw()
{
	if (h._M_left == z)
		h._M_left = z->_M_right || z != h._M_right ? _Rb_tree_increment(z) : &h;
	if (h._M_right == z)
		h._M_right = z->_M_left || z->_M_parent != &h ? _Rb_tree_decrement(z) : &h;
	if (!z->_M_left)
		replace(z, z->_M_right, h);
	else if (!z->_M_right)
		replace(z, z->_M_left, h);
	else
	{
		Node	y = z->_M_right;
		while (y->_M_left)
			y = y->_M_left;
		if (y->_M_parent != z)
		{
			replace(y, y->_M_right, h);
			y->_M_right = z->_M_right;
			y->_M_right->_M_parent = y;
		}
		replace(z, y, h);
		y->_M_left = z->_M_left;
		y->_M_left->_M_parent = y;
	}
	return z;
}
}
