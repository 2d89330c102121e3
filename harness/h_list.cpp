/* C10, C11: intrusive list against sequence models. */
#include "mon.h"
#include "futils/list.h"
#include <algorithm>
using namespace mon;

struct Item {
	uint64_t pre;
	struct list_node node;
	int id;
	int where = -1; /* list index, -1 unlinked, -2 del_init'ed, -3 fresh */
	uint64_t post;
};
typedef std::vector<Item *> Seq;

/* elements come in any order of address */
static std::vector<Item *> &shelf = *new std::vector<Item *>;
static Item *item()
{
	if (shelf.size() < 8) for (int i = 0; i < 64; i++) shelf.push_back((Item *)malloc(sizeof(Item)));
	size_t k = rng().below(shelf.size());
	Item *i = shelf[k];
	shelf[k] = shelf.back();
	shelf.pop_back();
	return i;
}
struct World {
	std::vector<struct list_node *> heads;
	std::vector<Seq> seq;
	std::vector<Item *> all;
	int nid = 0;
	Item *fresh()
	{
		Item *i = item();
		memset(i, 0x5e, sizeof *i);
		i->pre = i->post = 0x1122334455667788ull;
		i->id = nid++;
		i->where = -3;
		all.push_back(i);
		return i;
	}
};

static std::string ids(const Seq &s)
{
	std::string r;
	for (size_t i = 0; i < s.size() && i < 30; i++) r += fmt("%d ", s[i]->id);
	return r;
}

/* compare every list with its model by raw links and by the queries */
static void compare(World &w, const std::string &op, bool deep)
{
	for (size_t k = 0; k < w.heads.size(); k++) {
		const struct list_node *h = w.heads[k];
		Seq &s = w.seq[k];
		size_t n = 0;
		bool ok = true;
		for (const struct list_node *p = h->next; p != h; p = p->next, n++) {
			if (n >= s.size() || p != &s[n]->node) { ok = false; break; }
		}
		if (!ok || n != s.size()) {
			viol("forward sequence wrong after " + op, fmt("list %zu has %zu elements expected %s(differs at %zu)", k, n, ids(s).c_str(), n));
			harness_error("structure broken"); /* cannot go on, VIOL already said it */
		}
		n = 0;
		for (const struct list_node *p = h->prev; p != h; p = p->prev, n++) {
			if (n >= s.size() || p != &s[s.size() - 1 - n]->node) { ok = false; break; }
		}
		if (!ok || n != s.size()) {
			viol("backward sequence wrong after " + op, fmt("list %zu expected reverse of %s(differs at %zu)", k, ids(s).c_str(), n));
			harness_error("structure broken");
		}
		CHECK(!!list_is_empty(h) == s.empty(), "list_is_empty after " + op, "list of %zu", s.size());
		CHECK(list_length(h) == s.size(), "list_length after " + op, "got %zu want %zu", list_length(h), s.size());
		CHECK(list_first(h) == (s.empty() ? h : &s[0]->node), "list_first after " + op, "list of %zu", s.size());
		CHECK(list_last(h) == (s.empty() ? h : &s.back()->node), "list_last after " + op, "list of %zu", s.size());
		if (!deep) continue;
		for (Item *i : w.all)
			if (i->where != -3 && i->where != (int)k)
				CHECK(!list_is_last(h, &i->node), "list_is_last of a node outside the list after " + op, "item %d, list of %zu", i->id, s.size());
		for (size_t i = 0; i < s.size(); i++) {
			const struct list_node *nd = &s[i]->node;
			CHECK(list_next(h, nd) == (i + 1 < s.size() ? &s[i + 1]->node : nullptr), "list_next after " + op, "position %zu of %zu", i, s.size());
			CHECK(list_prev(h, nd) == (i > 0 ? &s[i - 1]->node : nullptr), "list_prev after " + op, "position %zu of %zu", i, s.size());
			CHECK(!!list_is_last(h, nd) == (i + 1 == s.size()), "list_is_last after " + op, "position %zu of %zu", i, s.size());
			CHECK(list_node_is_ref(&s[i]->node) && !list_node_is_unref(&s[i]->node), "linked node seen as unlinked after " + op, "position %zu", i);
		}
	}
	if (deep)
		for (Item *i : w.all) {
			CHECK(i->pre == 0x1122334455667788ull && i->post == i->pre, "payload changed by " + op, "item %d", i->id);
			if (i->where == -1)
				CHECK(list_node_is_unref(&i->node) && !list_node_is_ref(&i->node), "deleted node not seen as unlinked after " + op, "item %d", i->id);
			CHECK(list_entry(&i->node, Item, node) == i, "list_entry", "item %d", i->id);
		}
}

static Item *spare(World &w)
{
	Rng &r = rng();
	if (r.chance(60)) {
		Seq c;
		for (Item *i : w.all) if (i->where < 0) c.push_back(i);
		if (!c.empty()) return c[r.below(c.size())];
	}
	return w.fresh();
}

static void history(int steps)
{
	Rng &r = rng();
	World w;
	size_t nl = 1 + r.below(4);
	for (size_t i = 0; i < nl; i++) {
		struct list_node *h = (struct list_node *)malloc(sizeof *h);
		if (r.chance(50)) list_init(h);
		else { h->next = h; h->prev = h; }
		w.heads.push_back(h);
		w.seq.push_back(Seq());
	}
	compare(w, "init", true);
	size_t limit = r.pick(std::vector<size_t>{1, 2, 3, 5, 8, 20});
	for (int st = 0; st < steps; st++) {
		size_t k = r.below(nl), k2 = r.below(nl);
		Seq &s = w.seq[k];
		struct list_node *h = w.heads[k];
		int op = (int)r.below(14);
		const char *nm = "?";
		size_t pos = s.empty() ? 0 : r.below(s.size());
		if (op >= 5 && op <= 10 && s.empty()) op = (int)r.below(5);
		if (op < 5 && s.size() >= limit) op = 5 + (int)r.below(7);
		uint64_t f = mix(mix((uint64_t)op, s.size()), pos);
		switch (op) {
		case 0: { /* add after a node or the head */
			nm = "list_add_after";
			Item *it = spare(w);
			if (s.empty() || r.chance(30)) { list_add_after(h, &it->node); s.insert(s.begin(), it); }
			else { list_add_after(&s[pos]->node, &it->node); s.insert(s.begin() + (long)pos + 1, it); }
			it->where = (int)k;
			break; }
		case 1: case 2: {
			nm = "list_add_before";
			Item *it = spare(w);
			if (s.empty() || r.chance(30)) { list_add_before(h, &it->node); s.push_back(it); }
			else { list_add_before(&s[pos]->node, &it->node); s.insert(s.begin() + (long)pos, it); }
			it->where = (int)k;
			break; }
		case 3: {
			nm = "list_push";
			Item *it = spare(w);
			list_push(h, &it->node);
			s.push_back(it);
			it->where = (int)k;
			break; }
		case 4: { /* explicit list_add between neighbours */
			nm = "list_add";
			Item *it = spare(w);
			size_t at = r.below(s.size() + 1);
			struct list_node *pv = at == 0 ? h : &s[at - 1]->node, *nx = at == s.size() ? h : &s[at]->node;
			list_add(&it->node, pv, nx);
			s.insert(s.begin() + (long)at, it);
			it->where = (int)k;
			break; }
		case 5: {
			nm = "list_del";
			Item *it = s[pos];
			list_del(&it->node);
			s.erase(s.begin() + (long)pos);
			it->where = -1;
			break; }
		case 6: {
			nm = "list_del_init";
			Item *it = s[pos];
			list_del_init(&it->node);
			s.erase(s.begin() + (long)pos);
			it->where = -2;
			CHECK(list_is_empty(&it->node) && it->node.prev == &it->node, "list_del_init does not reinitialise", "position %zu", pos);
			break; }
		case 7: case 8: { /* replace by a spare one */
			nm = op == 7 ? "list_replace" : "list_replace_init";
			Item *it = spare(w), *old = s[pos];
			if (op == 7) { list_replace(&old->node, &it->node); list_node_unref(&old->node); old->where = -1; }
			else {
				list_replace_init(&old->node, &it->node);
				old->where = -2;
				CHECK(list_is_empty(&old->node) && old->node.prev == &old->node, "list_replace_init does not reinitialise", "position %zu of %zu", pos, s.size());
			}
			s[pos] = it;
			it->where = (int)k;
			break; }
		case 9: case 10: { /* move next to a node or a head of any list */
			nm = op == 9 ? "list_move_after" : "list_move_before";
			Item *it = s[pos];
			Seq &d = w.seq[k2];
			s.erase(s.begin() + (long)pos);
			bool tohead = d.empty() || r.chance(40);
			size_t at = d.empty() ? 0 : r.below(d.size());
			struct list_node *to = tohead ? w.heads[k2] : &d[at]->node;
			if (op == 9) { list_move_after(to, &it->node); d.insert(tohead ? d.begin() : d.begin() + (long)at + 1, it); }
			else { list_move_before(to, &it->node); d.insert(tohead ? d.end() : d.begin() + (long)at, it); }
			it->where = (int)k2;
			f = mix(f, mix(k == k2, tohead ? 99 : at));
			break; }
		case 11: { /* the whole list moves to another head */
			nm = "list_replace of a head";
			struct list_node *nh = (struct list_node *)malloc(sizeof *nh);
			memset(nh, 0x33, sizeof *nh);
			if (r.chance(50)) {
				list_replace(h, nh);
			} else {
				list_replace_init(h, nh);
				CHECK(list_is_empty(h), "list_replace_init leaves the old head non-empty", "list of %zu", s.size());
			}
			if (s.empty()) CHECK(list_is_empty(nh) && list_last(nh) == nh, "replaced empty head not empty", "%p", (void *)nh);
			free(h);
			w.heads[k] = nh;
			break; }
		default: {
			nm = "list_pop";
			Item *got = list_pop(h, Item, node);
			if (s.empty()) CHECK(got == nullptr, "list_pop of an empty list", "gave %p", (void *)got);
			else {
				CHECK(got == s[0], "list_pop order", "wrong element of %zu", s.size());
				s[0]->where = -1;
				s.erase(s.begin());
			}
			break; }
		}
		compare(w, nm, r.chance(25) || st == steps - 1);
		eval(mix(f, hstr(nm, strlen(nm))), true);
		stat("ops");
		stat_max("max:list length", (int64_t)w.seq[k].size());
		if (st == 20) sample(fmt("%zu lists, limit %zu, after %d ops list 0 = [%s]", nl, limit, st, ids(w.seq[0]).c_str()));
	}
	for (Item *i : w.all) free(i);
	for (auto *h : w.heads) free(h);
}

/* ---- walks ---- */
enum { KEEP, DEL, DELINIT, MOVE, FREE, NACT };
struct WalkCase {
	int macro; /* 0..7 */
	size_t n;
	std::vector<int> act;
};
static void walk(const WalkCase &c)
{
	Rng &r = rng();
	struct list_node *h = (struct list_node *)malloc(sizeof *h), *o = (struct list_node *)malloc(sizeof *o);
	list_init(h);
	list_init(o);
	Seq s, moved;
	for (size_t i = 0; i < c.n; i++) {
		Item *it = item();
		it->id = (int)i;
		it->where = 0;
		list_add_before(h, &it->node);
		s.push_back(it);
	}
	std::vector<int> seen;
	bool over = false;
	Seq left = s;
	auto visit = [&](Item *p) -> bool {
		if (seen.size() > c.n + 2) { over = true; return false; }
		int id = -1;
		for (size_t i = 0; i < s.size(); i++) if (s[i] == p) id = (int)i;
		seen.push_back(id);
		if (id < 0) { over = true; return false; }
		switch (c.act[(size_t)id]) {
		case DEL: list_del(&p->node); left.erase(std::find(left.begin(), left.end(), p)); break;
		case DELINIT: list_del_init(&p->node); left.erase(std::find(left.begin(), left.end(), p)); break;
		case MOVE:
			if (r.chance(50)) { list_move_after(o, &p->node); moved.insert(moved.begin(), p); }
			else { list_move_before(o, &p->node); moved.push_back(p); }
			left.erase(std::find(left.begin(), left.end(), p));
			break;
		case FREE: list_del(&p->node); left.erase(std::find(left.begin(), left.end(), p)); s[(size_t)id] = nullptr; memset((void *)p, 0xee, sizeof *p); free(p); break;
		default: break;
		}
		return true;
	};
	static const char *mn[8] = {"forward", "backward", "forward_safe", "backward_safe", "entry_forward", "entry_backward", "entry_forward_safe", "entry_backward_safe"};
	struct list_node *p, *t;
	Item *ip, *it;
	switch (c.macro) {
	case 0: list_walk_forward(h, p) if (!visit(list_entry(p, Item, node))) break; break;
	case 1: list_walk_backward(h, p) if (!visit(list_entry(p, Item, node))) break; break;
	case 2: list_walk_forward_safe(h, p, t) if (!visit(list_entry(p, Item, node))) break; break;
	case 3: list_walk_backward_safe(h, p, t) if (!visit(list_entry(p, Item, node))) break; break;
	case 4: list_walk_entry_forward(h, ip, node) if (!visit(ip)) break; break;
	case 5: list_walk_entry_backward(h, ip, node) if (!visit(ip)) break; break;
	case 6: list_walk_entry_forward_safe(h, ip, it, node) if (!visit(ip)) break; break;
	default: list_walk_entry_backward_safe(h, ip, it, node) if (!visit(ip)) break; break;
	}
	bool ok = !over && seen.size() == c.n;
	for (size_t i = 0; ok && i < c.n; i++) ok = seen[i] == (int)((c.macro & 1) ? c.n - 1 - i : i);
	std::string acts;
	for (int a : c.act) acts += (char)('0' + a);
	CHECK(ok, fmt("list_walk_%s visits", mn[c.macro]), "length %zu actions %s visited %zu elements%s", c.n, acts.c_str(), seen.size(), over ? " (overrun)" : "");
	if (ok) {
		size_t n = 0;
		bool same = true;
		for (p = h->next; p != h && n <= left.size(); p = p->next, n++) if (n >= left.size() || p != &left[n]->node) { same = false; break; }
		CHECK(same && n == left.size(), fmt("list after list_walk_%s", mn[c.macro]), "length %zu actions %s", c.n, acts.c_str());
		n = 0; same = true;
		for (p = o->next; p != o && n <= moved.size(); p = p->next, n++) if (n >= moved.size() || p != &moved[n]->node) { same = false; break; }
		CHECK(same && n == moved.size(), fmt("moved elements after list_walk_%s", mn[c.macro]), "length %zu actions %s", c.n, acts.c_str());
	}
	for (Item *i : s) free(i);
	free(h);
	free(o);
	uint64_t f = mix((uint64_t)c.macro, c.n);
	for (int a : c.act) f = mix(f, (uint64_t)a);
	eval(f, c.n > 0);
	stat("walks");
	if (r.below(3000) == 0) sample(fmt("list_walk_%s over %zu elements, actions %s", mn[c.macro], c.n, acts.c_str()));
}

static void fifo()
{
	Rng &r = rng();
	struct list_node h;
	list_init(&h);
	std::deque<Item *> m;
	int nid = 0;
	size_t n = 400;
	int bias = (int)r.range(30, 70);
	for (size_t i = 0; i < n; i++) {
		if (r.chance((unsigned)bias)) {
			Item *it = item();
			it->id = nid++;
			list_push(&h, &it->node);
			m.push_back(it);
		} else {
			Item *it = list_pop(&h, Item, node);
			Item *want = m.empty() ? nullptr : m.front();
			CHECK(it == want, "FIFO order", "popped %d, expected %d of %zu", it ? it->id : -1, want ? want->id : -1, m.size());
			if (it != want) return;
			if (it) {
				m.pop_front();
				CHECK(list_node_is_unref(&it->node), "popped node not unlinked", "item %d", it->id);
				memset((void *)it, 0xdd, sizeof *it);
				free(it);
			}
			stat("pops");
		}
		CHECK(list_length(&h) == m.size(), "FIFO length", "%zu want %zu", list_length(&h), m.size());
		eval(mix(0x777, m.size()), !m.empty());
	}
	while (Item *it = list_pop(&h, Item, node)) { CHECK(it == m.front(), "FIFO order", "drain"); if (it != m.front()) return; m.pop_front(); free(it); }
	CHECK(m.empty() && list_is_empty(&h), "FIFO drain", "%zu left", m.size());
}

/* lists much longer than the usual ones: counters and cut-offs */
static const size_t BIG[] = {100, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 200000};
static void big_model(size_t n)
{
	Rng &r = rng();
	std::vector<Item> v(n);
	struct list_node h, o;
	list_init(&h);
	list_init(&o);
	bool front = r.chance(50);
	for (size_t i = 0; i < n; i++) {
		v[i].id = (int)i;
		if (front) list_add_after(&h, &v[i].node);
		else if (r.chance(50)) list_push(&h, &v[i].node);
		else list_add(&v[i].node, h.prev, &h);
	}
	auto seq = [&](const struct list_node *l, bool back) {
		size_t k = 0;
		for (const struct list_node *p = back ? l->prev : l->next; p != l; p = back ? p->prev : p->next, k++) {
			size_t want = back != front ? n - 1 - k : k;
			if (k >= n || p != &v[want].node) return false;
		}
		return k == n;
	};
	CHECK(list_length(&h) == n, "list_length of a long list", "got %zu want %zu", list_length(&h), n);
	CHECK(seq(&h, false) && seq(&h, true), "sequence of a long list", "%zu elements", n);
	/* the whole list changes head, then every element changes list */
	struct list_node nh;
	list_replace_init(&h, &nh);
	CHECK(list_is_empty(&h) && list_length(&nh) == n && seq(&nh, false) && seq(&nh, true), "long list after list_replace_init of its head", "%zu elements", n);
	while (!list_is_empty(&nh)) list_move_before(&o, list_first(&nh));
	CHECK(list_length(&o) == n && seq(&o, false) && seq(&o, true), "long list after moves", "%zu elements", n);
	/* removals down to nothing, the length stays right */
	size_t left = n;
	while (left) {
		size_t step = left > 300 && left % 1000 ? 1 + r.below(left > 2000 ? left / 2 : left / 4) : 1;
		while (step--) {
			if (r.chance(50)) list_del(list_last(&o));
			else if (r.chance(50)) list_del_init(list_first(&o));
			else CHECK(list_pop(&o, Item, node) != nullptr, "list_pop of a long list", "%zu left of %zu", left, n);
			left--;
		}
		CHECK(list_length(&o) == left && !!list_is_empty(&o) == !left, "list_length of a long list", "got %zu want %zu of %zu", list_length(&o), left, n);
	}
	stat("long lists");
	eval(mix(mix(0xb16, n), front));
	tick();
}
static void big_walk(int macro, size_t n, int del)
{
	Rng &r = rng();
	std::vector<Item *> v(n);
	struct list_node h, o;
	list_init(&h);
	list_init(&o);
	for (size_t i = 0; i < n; i++) { v[i] = item(); v[i]->id = (int)i; list_add_before(&h, &v[i]->node); }
	size_t k = 0, gone = 0;
	bool ok = true, back = macro & 1, safe = macro & 2;
	auto visit = [&](Item *p) {
		if (k >= n || p != v[back ? n - 1 - k : k]) { ok = false; return false; }
		if (safe && del && r.below(100) < (unsigned)del) {
			size_t at = (size_t)p->id;
			if (r.chance(50)) { list_move_before(&o, &p->node); }
			else { list_del(&p->node); v[at] = nullptr; memset((void *)p, 0xee, sizeof *p); free(p); }
			gone++;
		}
		k++;
		return true;
	};
	struct list_node *p, *t;
	Item *ip, *it;
	switch (macro) {
	case 0: list_walk_forward(&h, p) if (!visit(list_entry(p, Item, node))) break; break;
	case 1: list_walk_backward(&h, p) if (!visit(list_entry(p, Item, node))) break; break;
	case 2: list_walk_forward_safe(&h, p, t) if (!visit(list_entry(p, Item, node))) break; break;
	case 3: list_walk_backward_safe(&h, p, t) if (!visit(list_entry(p, Item, node))) break; break;
	case 4: list_walk_entry_forward(&h, ip, node) if (!visit(ip)) break; break;
	case 5: list_walk_entry_backward(&h, ip, node) if (!visit(ip)) break; break;
	case 6: list_walk_entry_forward_safe(&h, ip, it, node) if (!visit(ip)) break; break;
	default: list_walk_entry_backward_safe(&h, ip, it, node) if (!visit(ip)) break; break;
	}
	CHECK(ok && k == n, "walk of a long list", "macro %d, %zu elements, %d%% removed: stopped or lost after %zu", macro, n, del, k);
	if (ok) CHECK(list_length(&h) == n - gone, "long list after a walk", "macro %d, %zu elements of %zu", macro, list_length(&h), n - gone);
	for (Item *i : v) free(i);
	stat("long walks");
	eval(mix(mix(0xb17, n), (uint64_t)(macro * 101 + del)));
	tick();
}
void mon::run()
{
	Rng &r = rng();
	watchdog(30);
	bool th = conf().thorough;
	if (conf().mode == "model") {
		/* static initialiser */
		static struct list_node s0 = list_head_init(s0);
		CHECK(list_is_empty(&s0) && list_length(&s0) == 0 && s0.next == &s0 && s0.prev == &s0, "list_head_init", "not an empty list");
		for (int i = 0; i < (th ? 8000 : 400); i++) history(120);
		for (size_t n : BIG) for (int k = 0; k < (th ? 6 : 1); k++) big_model(n);
		return;
	}
	for (int m = 0; m < 8; m++) {
		bool safe = (m & 2) != 0;
		for (size_t n = 0; n <= (th ? 6 : 4); n++) {
			if (!safe) { walk({m, n, std::vector<int>(n, KEEP)}); continue; }
			size_t tot = 1;
			for (size_t i = 0; i < n; i++) tot *= NACT;
			for (size_t c = 0; c < tot; c++) {
				std::vector<int> a;
				size_t x = c;
				for (size_t i = 0; i < n; i++) { a.push_back((int)(x % NACT)); x /= NACT; }
				walk({m, n, a});
			}
		}
		for (int i = 0; i < (th ? 20000 : 800); i++) {
			size_t n = r.below(60);
			std::vector<int> a;
			for (size_t k = 0; k < n; k++) a.push_back(safe ? (int)r.below(NACT) : KEEP);
			walk({m, n, a});
		}
	}
	for (int i = 0; i < (th ? 2000 : 100); i++) fifo();
	for (size_t n : BIG)
		for (int m = 0; m < 8; m++)
			for (int del : {0, 20, 100}) if (del == 0 || (m & 2)) big_walk(m, n, del);
}
