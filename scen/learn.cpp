// L01 (splits and batches), L02 (initial weights), L03 (clustering), L06 (loading data sets), L07 (saving parameters).
#include "common.h"
#include "core/lin_alg.h"
#include "core/data.h"
#include "core/utilities.h"
#include "modules/kmeans/kmeans.h"
#include <algorithm>
#include <cmath>
#include <iostream>
#include <set>
#include <sstream>
using namespace sim;

namespace {
typedef std::vector<double> Row;
static Ref<MLPPMatrix> matrix(int rows, int cols) {
	Ref<MLPPMatrix> m;
	m.instance();
	m->resize(Size2i(cols, rows));
	return m;
}
static Row row_of(const Ref<MLPPMatrix> &m, int i) {
	Row r;
	for (int k = 0; k < m->size().x; k++) r.push_back(m->element_get(i, k));
	return r;
}
// Example i of a data set: every value names its example.
static void fill_ids(Ref<MLPPMatrix> m, int tag) {
	for (int i = 0; i < m->size().y; i++) {
		for (int k = 0; k < m->size().x; k++) m->element_set(i, k, i * 16 + k + tag * 100000);
	}
}
static int id_of(const Row &r, int tag) { // -1: no example
	if (r.empty()) return -1;
	int i = ((int)r[0] - tag * 100000) / 16;
	for (size_t k = 0; k < r.size(); k++) {
		if (r[k] != i * 16 + (int)k + tag * 100000) return -1;
	}
	return i;
}
// ---- L01 -------------------------------------------------------------------------------------------------
static void l01_split() {
	int n = wchoose(3) ? 1 + wchoose(12) : 1 + wchoose(60);
	int fx = 1 + wchoose(4), fy = 1 + wchoose(3);
	Ref<MLPPDataComplex> d;
	d.instance();
	d->set_input(matrix(n, fx));
	d->set_output(matrix(n, fy));
	fill_ids(d->get_input(), 1);
	fill_ids(d->get_output(), 2);
	real_t share = wchoose(4) == 0 ? (real_t)wchoose(2) : wchoose(2) ? (real_t)wchoose(100) / 100 : (real_t)wchoose(n + 1) / n;
	int times = 1 + wchoose(3);
	for (int t = 0; t < times; t++) {
		MLPPData tool;
		Ref<MLPPDataComplex> part[2];
		if (wchoose(2)) {
			MLPPData::SplitComplexData r = tool.train_test_split(d, share);
			part[0] = r.train;
			part[1] = r.test;
		} else {
			Array a = tool.train_test_split_bind(d, share);
			SIM_CHECK(a.size() == 2, "shape", "a split has %d parts", a.size());
			for (int i = 0; i < 2; i++) part[i] = a[i];
		}
		SIM_CHECK(part[0].is_valid() && part[1].is_valid(), "shape", "a part of the split is missing");
		std::vector<int> seen(n, 0);
		int count[2];
		for (int p = 0; p < 2; p++) {
			Ref<MLPPMatrix> in = part[p]->get_input(), out = part[p]->get_output();
			count[p] = in->size().y;
			SIM_CHECK(out->size().y == count[p], "labels", "%d examples with %d labels", count[p], out->size().y);
			SIM_CHECK(count[p] == 0 || (in->size().x == fx && out->size().x == fy), "shape", "the examples of a part have another width");
			for (int i = 0; i < count[p]; i++) {
				int id = id_of(row_of(in, i), 1), lid = id_of(row_of(out, i), 2);
				SIM_CHECK(id >= 0 && id < n, "content", "a part holds an example that is not in the data set");
				SIM_CHECK(id == lid, "labels", "example %d came with the label of %d", id, lid);
				seen[id]++;
			}
		}
		for (int i = 0; i < n; i++) SIM_CHECK(seen[i] == 1, "partition", "example %d of %d is in %d parts", i, n, seen[i]);
		double exact = (double)share * n;
		int lo = (int)floor(exact - 1e-4), hi = (int)floor(exact + 1e-4);
		SIM_CHECK(count[1] >= lo && count[1] <= hi, "share", "the test part of %d examples with share %g has %d", n, (double)share, count[1]);
		for (int i = 0; i < n; i++) SIM_CHECK(id_of(row_of(d->get_input(), i), 1) == i && id_of(row_of(d->get_output(), i), 2) == i, "original", "splitting changed the data set");
	}
	ev("split %d share %g", n, (double)share);
	// Every example can be drawn: over many splits of three examples each one is the tested one at some time.
	if (choose(ST_CFG, 8) == 0) {
		Ref<MLPPDataComplex> s;
		s.instance();
		s->set_input(matrix(3, 1));
		s->set_output(matrix(3, 1));
		fill_ids(s->get_input(), 1);
		fill_ids(s->get_output(), 2);
		std::set<int> tested;
		MLPPData tool;
		for (int t = 0; t < 120 && tested.size() < 3; t++) {
			MLPPData::SplitComplexData r = tool.train_test_split(s, (real_t)0.34);
			if (r.test->get_input()->size().y == 1) tested.insert(id_of(row_of(r.test->get_input(), 0), 1));
		}
		SIM_CHECK(tested.size() == 3, "draws", "in 120 splits only %zu of 3 examples were ever in the test part", tested.size());
		probe(0, "every example was tested at some time");
	}
}
static void batch_counts(int n, int nb, const std::vector<int> &sizes) {
	SIM_CHECK((int)sizes.size() == nb, "count", "%d mini-batches asked for, %zu made", nb, sizes.size());
	if (n >= nb) {
		for (int s : sizes) SIM_CHECK(s > 0, "empty", "an empty mini-batch out of %d for %d examples", nb, n);
	}
}
static void l01_batches() {
	int n = wchoose(3) ? 1 + wchoose(12) : 1 + wchoose(70);
	int nb = 1 + wchoose(wchoose(4) ? n : n + 3);
	int fx = 1 + wchoose(4), fy = 1 + wchoose(3);
	Ref<MLPPMatrix> in = matrix(n, fx), outm = matrix(n, fy);
	Ref<MLPPVector> outv;
	outv.instance();
	outv->resize(n);
	fill_ids(in, 1);
	fill_ids(outm, 2);
	for (int i = 0; i < n; i++) outv->element_set(i, 7 + i * 3);
	std::vector<int> sizes;
	int next = 0;
	auto check = [&](const Ref<MLPPMatrix> &m) {
		sizes.push_back(m->size().y);
		for (int i = 0; i < m->size().y; i++) {
			int id = id_of(row_of(m, i), 1);
			SIM_CHECK(id == next, "order", "mini-batch %zu of %d for %d examples holds example %d where %d belongs", sizes.size() - 1, nb, n, id, next);
			next++;
		}
	};
	int next_label = 0;
	auto checkm = [&](const Ref<MLPPMatrix> &m) {
		SIM_CHECK(m->size().y == sizes.back(), "labels", "a mini-batch of %d examples has %d labels", sizes.back(), m->size().y);
		for (int i = 0; i < m->size().y; i++) {
			int id = id_of(row_of(m, i), 2);
			SIM_CHECK(id == next_label, "labels", "an example came with the label of %d instead of %d", id, next_label);
			next_label++;
		}
	};
	auto checkv = [&](const Ref<MLPPVector> &v) {
		SIM_CHECK(v->size() == sizes.back(), "labels", "a mini-batch of %d examples has %d labels", sizes.back(), v->size());
		for (int i = 0; i < v->size(); i++) {
			SIM_CHECK(v->element_get(i) == 7 + next_label * 3, "labels", "an example came with the label %g instead of %d", (double)v->element_get(i), 7 + next_label * 3);
			next_label++;
		}
	};
	uint32_t how = wchoose(9);
	MLPPUtilities u;
	ev("batches %d of %d way %u", nb, n, how);
	switch (how) {
		case 0: {
			Vector<Ref<MLPPMatrix>> b = MLPPUtilities::create_mini_batchesm(in, nb);
			for (int i = 0; i < b.size(); i++) check(b[i]);
		} break;
		case 1: {
			Array b = u.create_mini_batchesm_bind(in, nb);
			for (int i = 0; i < b.size(); i++) check(Ref<MLPPMatrix>(b[i]));
		} break;
		case 2: {
			MLPPUtilities::CreateMiniBatchMVBatch b = MLPPUtilities::create_mini_batchesmv(in, outv, nb);
			SIM_CHECK(b.input_sets.size() == b.output_sets.size(), "labels", "%d mini-batches with %d label sets", b.input_sets.size(), b.output_sets.size());
			for (int i = 0; i < b.input_sets.size(); i++) check(b.input_sets[i]), checkv(b.output_sets[i]);
		} break;
		case 3: {
			Array b = u.create_mini_batchesmv_bind(in, outv, nb);
			Array x = b[0], y = b[1];
			for (int i = 0; i < x.size(); i++) check(Ref<MLPPMatrix>(x[i])), checkv(Ref<MLPPVector>(y[i]));
		} break;
		case 4: {
			MLPPUtilities::CreateMiniBatchMMBatch b = MLPPUtilities::create_mini_batchesmm(in, outm, nb);
			SIM_CHECK(b.input_sets.size() == b.output_sets.size(), "labels", "%d mini-batches with %d label sets", b.input_sets.size(), b.output_sets.size());
			for (int i = 0; i < b.input_sets.size(); i++) check(b.input_sets[i]), checkm(b.output_sets[i]);
		} break;
		case 5: {
			Array b = u.create_mini_batchesmm_bind(in, outm, nb);
			Array x = b[0], y = b[1];
			for (int i = 0; i < x.size(); i++) check(Ref<MLPPMatrix>(x[i])), checkm(Ref<MLPPMatrix>(y[i]));
		} break;
		default: { // the std::vector forms
			std::vector<std::vector<real_t>> si(n), so(n);
			std::vector<real_t> sv(n);
			for (int i = 0; i < n; i++) {
				for (int k = 0; k < fx; k++) si[i].push_back(in->element_get(i, k));
				for (int k = 0; k < fy; k++) so[i].push_back(outm->element_get(i, k));
				sv[i] = outv->element_get(i);
			}
			auto mat = [&](const std::vector<std::vector<real_t>> &v) {
				Ref<MLPPMatrix> m = matrix(v.size(), v.empty() ? 0 : v[0].size());
				for (size_t i = 0; i < v.size(); i++) {
					for (size_t k = 0; k < v[i].size(); k++) m->element_set(i, k, v[i][k]);
				}
				return m;
			};
			auto vec = [&](const std::vector<real_t> &v) {
				Ref<MLPPVector> r;
				r.instance();
				r->resize(v.size());
				for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]);
				return r;
			};
			if (how == 6) {
				for (auto &b : MLPPUtilities::createMiniBatches(si, nb)) check(mat(b));
			} else if (how == 7) {
				auto r = MLPPUtilities::createMiniBatches(si, sv, nb);
				for (size_t i = 0; i < std::get<0>(r).size(); i++) check(mat(std::get<0>(r)[i])), checkv(vec(std::get<1>(r)[i]));
			} else {
				auto r = MLPPUtilities::createMiniBatches(si, so, nb);
				for (size_t i = 0; i < std::get<0>(r).size(); i++) check(mat(std::get<0>(r)[i])), checkm(mat(std::get<1>(r)[i]));
			}
		}
	}
	batch_counts(n, nb, sizes);
	SIM_CHECK(next == n, "lost", "%d of %d examples are in no mini-batch (%d batches)", n - next, n, nb);
	for (int i = 0; i < n; i++) SIM_CHECK(id_of(row_of(in, i), 1) == i && id_of(row_of(outm, i), 2) == i && outv->element_get(i) == 7 + i * 3, "original", "batching changed the data set");
	if (n % nb) probe(1, "examples left over for the last batch");
}
// ---- L02 -------------------------------------------------------------------------------------------------
static const double UNWRITTEN = -1.0e30;
struct Dist {
	bool normal;
	double lo, hi; // normal: hi is the spread
};
static Dist dist_of(int type, double n, double m, bool vec) {
	double xn = vec ? n + 1 : n + m;
	switch (type) {
		case 1: return { true, 0, sqrt(2 / xn) };
		case 2: return { false, -sqrt(6 / xn), sqrt(6 / xn) };
		case 3: return { true, 0, sqrt(2 / n) };
		case 4: return { false, -sqrt(6 / n), sqrt(6 / n) };
		case 5: return { true, 0, sqrt(1 / n) };
		case 6: return { false, -sqrt(3 / n), sqrt(3 / n) };
		case 7: return { false, -1 / sqrt(n), 1 / sqrt(n) };
		default: return { false, 0, 1 };
	}
}
// The limits are ten standard errors wide: they hold for every random sequence worth the name.
static void check_draws(const std::vector<double> &x, Dist d, const char *what) {
	double sum = 0, sq = 0;
	double tol = 1e-5 * (fabs(d.hi) + fabs(d.lo));
	for (double v : x) {
		SIM_CHECK(v != UNWRITTEN, "unwritten", "%s: an element was never written", what);
		SIM_CHECK(std::isfinite(v), "finite", "%s: an element is not finite", what);
		if (d.normal) {
			SIM_CHECK(fabs(v) <= 12 * d.hi, "range", "%s: %g is far outside a normal distribution with spread %g", what, v, d.hi);
		} else {
			SIM_CHECK(v >= d.lo - tol && v <= d.hi + tol, "range", "%s: %g is outside [%g, %g]", what, v, d.lo, d.hi);
		}
		sum += v;
		sq += v * v;
	}
	size_t n = x.size();
	if (n >= 40) {
		double mean = sum / n, var = sq / n - mean * mean;
		double sd = d.normal ? d.hi : (d.hi - d.lo) / sqrt(12.0), mid = d.normal ? 0 : (d.lo + d.hi) / 2;
		SIM_CHECK(fabs(mean - mid) < 10 * sd / sqrt(n), "mean", "%s: the mean of %zu elements is %g, expected about %g", what, n, mean, mid);
		double rel = sqrt(var) / sd;
		double w = 10 / sqrt(2.0 * n);
		SIM_CHECK(rel > 1 - w && rel < 1 + w, "spread", "%s: the spread of %zu elements is %g, expected about %g", what, n, sqrt(var), sd);
	}
	if (n >= 6) {
		std::set<double> u(x.begin(), x.end());
		SIM_CHECK(u.size() > n / 2, "independent", "%s: only %zu different values in %zu elements", what, u.size(), n);
	}
	if (n >= 400) {
		double c = 0, mean = sum / n, var = sq / n - mean * mean;
		for (size_t i = 1; i < n; i++) c += (x[i] - mean) * (x[i - 1] - mean);
		SIM_CHECK(fabs(c / n / var) < 10 / sqrt(n), "independent", "%s: neighbouring elements are correlated (%g)", what, c / n / var);
	}
}
static int some_size() {
	switch (wchoose(6)) {
		case 0: return 1;
		case 1: return 2 + wchoose(3);
		case 2: return 30 + wchoose(200);
		default: return 1 + wchoose(30);
	}
}
static void l02_weights() {
	MLPPUtilities u;
	int rounds = 1 + wchoose(4);
	std::vector<double> prev;
	for (int r = 0; r < rounds; r++) {
		int type = wchoose(9);
		int rows = some_size(), cols = some_size();
		if (rows * cols > 20000) rows = 1 + rows % 40;
		static const char *const names[] = { "Default", "XavierNormal", "XavierUniform", "HeNormal", "HeUniform", "LeCunNormal", "LeCunUniform", "Uniform" };
		bool is_default = type == 8;
		if (is_default) type = 0;
		std::vector<double> x;
		char what[100];
		uint32_t how = wchoose(8);
		Dist d = dist_of(type, rows, cols, false);
		switch (how) {
			case 7: { // a matrix of standard normal noise
				Ref<MLPPMatrix> m;
				uint32_t by = wchoose(4);
				if (by == 0) {
					MLPPLinAlg la;
					m = la.gaussian_noise(rows, cols);
				} else if (by == 1) {
					m = matrix(1, 1)->gaussian_noise(rows, cols);
				} else if (by == 2) {
					m = MLPPMatrix::create_gaussian_noise(rows, cols);
				} else {
					m = matrix(rows, cols);
					m->fill(UNWRITTEN);
					m->gaussian_noise_fill();
				}
				SIM_CHECK(m.is_valid() && m->size() == Size2i(cols, rows), "shape", "noise of %d rows and %d columns has another shape", rows, cols);
				for (int i = 0; i < rows; i++) {
					for (int k = 0; k < cols; k++) x.push_back(m->element_get(i, k) < -9e29 ? UNWRITTEN : m->element_get(i, k));
				}
				d = { true, 0, 1 };
				snprintf(what, sizeof what, "noise matrix of %d rows and %d columns", rows, cols);
			} break;
			case 0:
			case 1: {
				Ref<MLPPMatrix> m = matrix(rows, cols);
				m->fill(UNWRITTEN);
				if (is_default) {
					u.weight_initializationm(m);
				} else {
					u.weight_initializationm(m, (MLPPUtilities::WeightDistributionType)type);
				}
				SIM_CHECK(m->size() == Size2i(cols, rows), "shape", "filling a matrix changed its shape");
				for (int i = 0; i < rows; i++) {
					for (int k = 0; k < cols; k++) x.push_back(m->element_get(i, k) < -9e29 ? UNWRITTEN : m->element_get(i, k));
				}
				snprintf(what, sizeof what, "%s matrix of %d rows and %d columns", names[type], rows, cols);
			} break;
			case 2:
			case 3: {
				Ref<MLPPVector> v;
				v.instance();
				v->resize(rows);
				v->fill(UNWRITTEN);
				d = dist_of(type, rows, 0, true);
				if (how == 2) {
					if (is_default) {
						u.weight_initializationv(v);
					} else {
						u.weight_initializationv(v, (MLPPUtilities::WeightDistributionType)type);
					}
				} else {
					type = 0;
					d = dist_of(0, rows, 0, true);
					u.bias_initializationv(v);
				}
				SIM_CHECK(v->size() == rows, "shape", "filling a vector changed its size");
				for (int i = 0; i < rows; i++) x.push_back(v->element_get(i) < -9e29 ? UNWRITTEN : v->element_get(i));
				snprintf(what, sizeof what, "%s %s of %d", names[type], how == 2 ? "vector" : "bias vector", rows);
			} break;
			case 4: {
				auto v = is_default ? MLPPUtilities::weightInitialization(rows) : MLPPUtilities::weightInitialization(rows, std::string(names[type]));
				d = dist_of(type, rows, 0, true);
				SIM_CHECK((int)v.size() == rows, "shape", "%zu weights instead of %d", v.size(), rows);
				x.assign(v.begin(), v.end());
				snprintf(what, sizeof what, "%s std::vector of %d", names[type], rows);
			} break;
			case 5: {
				auto v = is_default ? MLPPUtilities::weightInitialization(rows, cols) : MLPPUtilities::weightInitialization(rows, cols, names[type]);
				SIM_CHECK((int)v.size() == rows, "shape", "%zu rows instead of %d", v.size(), rows);
				for (auto &q : v) {
					SIM_CHECK((int)q.size() == cols, "shape", "%zu columns instead of %d", q.size(), cols);
					x.insert(x.end(), q.begin(), q.end());
				}
				snprintf(what, sizeof what, "%s std::vector of %d rows and %d columns", names[type], rows, cols);
			} break;
			default: {
				auto v = MLPPUtilities::biasInitialization(rows);
				SIM_CHECK((int)v.size() == rows, "shape", "%zu biases instead of %d", v.size(), rows);
				x.assign(v.begin(), v.end());
				x.push_back(MLPPUtilities::biasInitialization());
				x.push_back(u.bias_initializationr());
				d = dist_of(0, 1, 0, true);
				x.resize(rows);
				type = 0;
				snprintf(what, sizeof what, "bias std::vector of %d", rows);
				real_t s1 = MLPPUtilities::biasInitialization(), s2 = u.bias_initializationr();
				SIM_CHECK(s1 >= 0 && s1 <= 1 && s2 >= 0 && s2 <= 1, "range", "a single bias is %g or %g", (double)s1, (double)s2);
			}
		}
		ev("%s", what);
		check_draws(x, d, what);
		if (x.size() >= 400) probe(2, "a sample large enough for its spread and correlation");
	}
}
// ---- L03 -------------------------------------------------------------------------------------------------
static double dist2(const Row &a, const Row &b) {
	double s = 0;
	for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]);
	return s;
}
struct Centres { // what the model answers, example by example
	std::vector<Row> per;
	std::vector<Row> distinct;
};
static Centres ask(MLPPKMeans &km, const Ref<MLPPMatrix> &in, const std::vector<Row> &X) {
	Centres c;
	Ref<MLPPMatrix> r = km.model_set_test(in);
	SIM_CHECK(r.is_valid() && r->size().y == (int)X.size() && r->size().x == (int)X[0].size(), "query", "a query for %zu examples returned something else", X.size());
	for (size_t i = 0; i < X.size(); i++) {
		Row p = row_of(r, i);
		for (double v : p) SIM_CHECK(std::isfinite(v), "finite", "a cluster centre is not finite");
		c.per.push_back(p);
		bool known = false;
		for (auto &q : c.distinct) known = known || q == p;
		if (!known) c.distinct.push_back(p);
	}
	return c;
}
static void nearest(const Centres &c, const std::vector<Row> &X, double scale) {
	for (size_t i = 0; i < X.size(); i++) {
		double d = dist2(X[i], c.per[i]);
		for (auto &q : c.distinct) {
			SIM_CHECK(d <= dist2(X[i], q) + 1e-4 * scale, "nearest", "example %zu is at %g of the centre it got, and at %g of another one", i, sqrt(d), sqrt(dist2(X[i], q)));
		}
	}
}
static void l03() {
	int n = 1 + wchoose(wchoose(3) ? 10 : 24), dims = 1 + wchoose(4), k = 1 + wchoose(n < 6 ? n : 6);
	uint32_t kind = wchoose(4);
	std::vector<Row> X;
	for (int i = 0; i < n; i++) {
		Row r;
		for (int d = 0; d < dims; d++) {
			double v;
			if (kind == 0) {
				v = wchoose(3); // many duplicates and ties
			} else if (kind == 1) {
				v = (int)wchoose(200000) / 1000.0 - 100;
			} else if (kind == 2) {
				v = (int)wchoose(4) * 50 + wchoose(1000) / 200.0; // groups
			} else {
				v = wchoose(41) - 20.0;
			}
			r.push_back((real_t)v);
		}
		if (kind == 0 && i && wchoose(3) == 0) r = X[wchoose(i)];
		X.push_back(r);
	}
	double scale = 1;
	for (auto &r : X) {
		double s = 0;
		for (double v : r) s += v * v;
		scale = std::max(scale, s);
	}
	Ref<MLPPMatrix> in = matrix(n, dims);
	for (int i = 0; i < n; i++) {
		for (int d = 0; d < dims; d++) in->element_set(i, d, X[i][d]);
	}
	MLPPKMeans km;
	km.set_input_set(in);
	km.set_k(k);
	km.set_mean_type(wchoose(2) ? MLPPKMeans::MEAN_TYPE_KMEANSPP : MLPPKMeans::MEAN_TYPE_CENTROID);
	uint64_t e0 = lib_errors();
	bool explicit_init = wchoose(4) != 0;
	Centres c;
	std::vector<Row> mu; // the reference's centres, if they are all known
	bool exact = false;
	if (explicit_init) {
		km.initialize();
		c = ask(km, in, X);
		nearest(c, X, scale);
		SIM_CHECK((int)c.distinct.size() <= k, "clusters", "%zu different centres for %d clusters", c.distinct.size(), k);
		for (auto &q : c.distinct) {
			bool is_example = false;
			for (auto &x : X) is_example = is_example || x == q;
			SIM_CHECK(is_example, "start", "an initial centre is no example of the data set");
		}
		exact = (int)c.distinct.size() == k; // every centre is an example, so asking for all examples shows them all
		mu = c.distinct;
	}
	// all centres at one example: one of them gets every example, the others none and stay
	bool twins = explicit_init && k > 1 && c.distinct.size() == 1;
	double last = -1;
	int rounds = 1 + wchoose(5);
	uint32_t ui = wchoose(4) == 0;
	ev("kmeans %d examples %d dims %d clusters, kind %u, rounds %d", n, dims, k, kind, rounds);
	for (int t = 0; t < rounds; t++) {
		int epochs = wchoose(3) ? 1 : 1 + wchoose(4);
		std::vector<Row> before = c.distinct;
		if (twins && t == 0) {
			Row m(dims, 0);
			for (auto &x : X) {
				for (int d = 0; d < dims; d++) m[d] += x[d] / n;
			}
			mu = { m, c.distinct[0] };
			if (dist2(m, mu[1]) < 1e-3 * scale) mu.pop_back();
			exact = mu.size() == 2 && (k == 2 || epochs == 1);
			if (exact) probe(4, "a centre without examples stays");
		} else {
			twins = false;
		}
		// the reference: assignment to the nearest centre, then means, while nothing is (nearly) tied
		for (int e = twins ? 1 : 0; e < epochs && exact; e++) {
			std::vector<Row> sum(k, Row(dims, 0));
			std::vector<int> cnt(k, 0);
			for (auto &x : X) {
				std::vector<std::pair<double, int>> o;
				for (int j = 0; j < k; j++) o.push_back({ dist2(x, mu[j]), j });
				std::sort(o.begin(), o.end());
				if (k > 1 && o[1].first - o[0].first < 1e-3 * scale) exact = false;
				int b = o[0].second;
				cnt[b]++;
				for (int d = 0; d < dims; d++) sum[b][d] += x[d];
			}
			for (int j = 0; j < k; j++) {
				if (!cnt[j]) continue;
				for (int d = 0; d < dims; d++) mu[j][d] = sum[j][d] / cnt[j];
			}
		}
		km.train(epochs, ui);
		c = ask(km, in, X);
		nearest(c, X, scale);
		SIM_CHECK((int)c.distinct.size() <= k, "clusters", "%zu different centres for %d clusters", c.distinct.size(), k);
		double cost = 0;
		for (int i = 0; i < n; i++) cost += dist2(X[i], c.per[i]);
		double got = km.score();
		double tol = 1e-4 * scale * n;
		SIM_CHECK(std::isfinite(got) && fabs(got - cost) <= tol, "cost", "the model reports a cost of %g, the examples are at a total of %g from their centres", got, cost);
		if (last >= 0) SIM_CHECK(cost <= last + tol, "increase", "the cost went from %g to %g", last, cost);
		last = cost;
		if (exact) {
			double want = 0;
			for (auto &x : X) {
				double b = 1e300;
				for (auto &q : mu) b = std::min(b, dist2(x, q));
				want += b;
			}
			SIM_CHECK(fabs(want - got) <= tol, "means", "after %d epochs the cost is %g; moving centres to the means of their examples gives %g", epochs, got, want);
			for (auto &q : mu) {
				Ref<MLPPVector> v;
				v.instance();
				v->resize(dims);
				for (int d = 0; d < dims; d++) v->element_set(d, q[d]);
				Ref<MLPPVector> a = km.model_test(v);
				SIM_CHECK(a.is_valid() && a->size() == dims, "query", "a query returned nothing");
				Row ar;
				for (int d = 0; d < dims; d++) ar.push_back(a->element_get(d));
				SIM_CHECK(dist2(ar, q) <= 1e-5 * scale, "means", "no centre is at the mean of its examples");
			}
			probe(3, "training followed by the reference to the end");
		}
		if (mu.size() != (size_t)k) exact = false;
		// other points
		int m = 1 + wchoose(2 * n);
		Ref<MLPPMatrix> other = matrix(m, dims);
		std::vector<Row> O;
		for (int i = 0; i < m; i++) {
			Row r;
			for (int d = 0; d < dims; d++) {
				double v = (real_t)((int)wchoose(4000) / 20.0 - 100);
				other->element_set(i, d, v);
				r.push_back(v);
			}
			O.push_back(r);
		}
		Centres oc = ask(km, other, O);
		for (int i = 0; i < m; i++) {
			double d = dist2(O[i], oc.per[i]), os = scale + 40000;
			for (auto &q : c.distinct) SIM_CHECK(d <= dist2(O[i], q) + 1e-4 * os, "nearest", "a queried point got a centre at %g, another one is at %g", sqrt(d), sqrt(dist2(O[i], q)));
			Ref<MLPPVector> v;
			v.instance();
			v->resize(dims);
			for (int q = 0; q < dims; q++) v->element_set(q, O[i][q]);
			Ref<MLPPVector> a = km.model_test(v);
			Row ar;
			for (int q = 0; q < dims; q++) ar.push_back(a->element_get(q));
			SIM_CHECK(fabs(dist2(O[i], ar) - d) <= 1e-4 * os, "query", "asking for one point and for many gives different centres");
		}
	}
	SIM_CHECK(lib_errors() == e0, "internal", "training raised an internal error");
	for (int i = 0; i < n; i++) SIM_CHECK(row_of(in, i) == X[i], "input", "training changed the data set");
}
// ---- L06 -------------------------------------------------------------------------------------------------
static std::string number(int style) {
	char b[64];
	double v = (int)wchoose(2000000) / 1000.0 - 1000;
	switch (style < 0 ? wchoose(7) : style) {
		case 0: snprintf(b, sizeof b, "%d", (int)wchoose(300)); break;
		case 1: snprintf(b, sizeof b, "%.1f", v); break;
		case 2: snprintf(b, sizeof b, "%.6f", v); break;
		case 3: snprintf(b, sizeof b, "%.3e", v); break;
		case 4: snprintf(b, sizeof b, " %g", v); break;
		case 5: snprintf(b, sizeof b, "-%d", (int)wchoose(50)); break;
		default: snprintf(b, sizeof b, "%g", v * 1e-3);
	}
	return b;
}
static bool unclear; // whether this is a number is a matter of taste
static bool is_number(const std::string &s0, double &v) {
	size_t a = s0.find_first_not_of(" \t\r"), z = s0.find_last_not_of(" \t\r");
	if (a == std::string::npos) return false;
	std::string s = s0.substr(a, z - a + 1);
	size_t i = 0;
	if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
	bool num = false, dot = false;
	for (; i < s.size(); i++) {
		if (isdigit(s[i])) {
			num = true;
		} else if (s[i] == '.' && !dot) {
			dot = true;
		} else {
			break;
		}
	}
	if (i < s.size() && (s[i] == 'e' || s[i] == 'E') && num) {
		i++;
		if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
		size_t e = i;
		for (; i < s.size() && isdigit(s[i]); i++) {
		}
		if (i == e || atoi(&s[e]) > 30) unclear = true; // no exponent, or out of the range of a real
	}
	if (!num || i != s.size()) return false;
	v = strtod(s.c_str(), nullptr);
	return true;
}
static bool close_to(double a, double b) { return fabs(a - b) <= 1e-6 * std::max(fabs(a), fabs(b)) + 1e-30; }
enum Loader { BREAST, BREAST_SVC, HOUSING, IRIS, WINE, MNIST, MNIST_TEST, FIRES, RAW_SUP, RAW_UNSUP, RAW_SIMPLE };
struct Table {
	bool ok = true; // false: some row is malformed
	std::vector<Row> rows;
};
// An independent reading of the bytes: rows of numbers, empty lines skipped. No quotes here.
static Table parse_table(const std::string &f, int min_cols, int use_cols, bool pairs) {
	Table t;
	size_t i = 0;
	while (i < f.size()) {
		size_t e = f.find('\n', i);
		std::string line = f.substr(i, e == std::string::npos ? e : e - i);
		i = e == std::string::npos ? f.size() : e + 1;
		if (!line.empty() && line.back() == '\r') line.pop_back();
		if (line.find('\r') != std::string::npos) unclear = true; // a carriage return inside a line
		if (line.find_first_not_of(" \t\r") == std::string::npos) continue;
		Row r;
		size_t a = 0;
		std::vector<std::string> cells;
		for (;;) {
			size_t z = line.find(',', a);
			cells.push_back(line.substr(a, z == std::string::npos ? z : z - a));
			if (z == std::string::npos) break;
			a = z + 1;
		}
		if ((int)cells.size() < min_cols || (pairs && cells.size() % 2)) {
			t.ok = false;
			return t;
		}
		for (size_t c = 0; c < cells.size() && (use_cols < 0 || (int)c < use_cols); c++) {
			double v;
			if (!is_number(cells[c], v)) {
				t.ok = false;
				return t;
			}
			r.push_back(v);
		}
		t.rows.push_back(r);
	}
	return t;
}
static void l06() {
	if (choose(ST_CFG, 2)) fs::stream_buffer = 1 + choose(ST_CFG, 80);
	bool at_row_end = choose(ST_CFG, 3) == 1;
	fs::faults.short_io = choose(ST_CFG, 2);
	Loader L = (Loader)wchoose(11);
	if ((L == MNIST || L == MNIST_TEST) && wchoose(6)) L = IRIS;
	int k = L == BREAST || L == BREAST_SVC ? 30 : L == HOUSING ? 13 : L == MNIST || L == MNIST_TEST ? 784 : L == FIRES || L == RAW_SIMPLE ? 1 : L == RAW_SUP || L == RAW_UNSUP ? 1 + wchoose(6) : 4;
	bool pairs = L == FIRES || L == RAW_SIMPLE;
	int classes = L == IRIS || L == WINE ? 3 : L == MNIST || L == MNIST_TEST ? 10 : 0;
	int cols = L == RAW_UNSUP ? k : k + 1;
	int rows = k > 100 ? 1 + wchoose(2) : wchoose(8) == 0 ? 0 : 1 + wchoose(12);
	std::string f;
	bool crlf = wchoose(3) == 0;
	bool last_newline = wchoose(2);
	for (int i = 0; i < rows; i++) {
		int c = cols;
		if (L == RAW_SIMPLE && wchoose(3) == 0) c = 2 + 2 * wchoose(3);
		if (!pairs && wchoose(20) == 0) c += 1 + wchoose(2); // more columns than needed
		for (int j = 0; j < c; j++) {
			if (j) f += ",";
			f += classes && j == k ? std::to_string(wchoose(classes)) : number(k > 20 ? 0 : -1);
		}
		if (i + 1 < rows || last_newline) f += crlf ? "\r\n" : "\n";
		if (wchoose(30) == 0 && i + 1 < rows) f += crlf ? "\r\n" : "\n";
	}
	std::string path = "/w/data.csv";
	bool missing = false;
	uint32_t damage = wchoose(6);
	if (damage == 0 && !f.empty()) f = f.substr(0, wchoose(f.size()));
	if (damage == 1 && !f.empty()) {
		static const char junk[] = "x,\n;-5. #aeE\t";
		int m = 1 + wchoose(3);
		for (int i = 0; i < m; i++) f[wchoose(f.size())] = junk[wchoose(sizeof junk - 1)];
	}
	if (damage == 2 && wchoose(3) == 0) missing = true;
	if (at_row_end && f.find('\n') != std::string::npos) fs::stream_buffer = f.find('\n') + 1; // the second read starts with a row
	if (!missing) fs::put(path, f);
	bool dir = damage == 3 && wchoose(6) == 0;
	if (dir) path = "/w";
	bool io = choose(ST_CFG, 3) == 0;
	if (io) {
		if (choose(ST_CFG, 2)) {
			fs::faults.fail_nth_syscall = fs::syscalls() + 1 + choose(ST_CFG, 12);
		} else {
			fs::faults.rate[F_READ_EIO] = 50 + choose(ST_CFG, 400);
			fs::faults.rate[F_OPEN] = choose(ST_CFG, 200);
		}
	}
	unclear = false;
	Table t = parse_table(f, cols < 2 && pairs ? 2 : cols, pairs ? -1 : cols, pairs);
	if (missing || dir) t.ok = false, t.rows.clear();
	std::vector<Row> want_in, want_out;
	for (auto &r : t.rows) {
		if (pairs) {
			for (size_t i = 0; i + 1 < r.size(); i += 2) {
				want_in.push_back({ r[i] });
				want_out.push_back({ r[i + 1] });
			}
			continue;
		}
		want_in.push_back(Row(r.begin(), r.begin() + k));
		if (L == RAW_UNSUP) continue;
		if (classes) {
			Row o(classes, 0);
			int c = (int)(real_t)r[k];
			if (fabs(r[k]) < 1e6 && c >= 0 && c < classes) o[c] = 1;
			want_out.push_back(o);
		} else {
			want_out.push_back({ r[k] });
		}
	}
	uint64_t e0 = lib_errors(), fired = fs::fired();
	MLPPData tool;
	Ref<MLPPMatrix> mi, mo;
	Ref<MLPPVector> vi, vo;
	String p(path.c_str());
	bool prefilled = false;
	auto prefill = [&] {
		if (mi.is_null()) mi.instance();
		if (vi.is_null()) vi.instance();
		if (vo.is_null()) vo.instance();
		prefilled = wchoose(2);
		if (prefilled) {
			mi->resize(Size2i(2, 3));
			mi->fill(42);
			vi->resize(2);
			vi->fill(43);
			vo->resize(2);
			vo->fill(44);
		}
	};
	switch (L) {
		case BREAST:
		case BREAST_SVC:
		case HOUSING: {
			Ref<MLPPDataSimple> d = L == BREAST ? tool.load_breast_cancer(p) : L == HOUSING ? tool.load_california_housing(p) : tool.load_breast_cancer_svc(p);
			SIM_CHECK(d.is_valid(), "result", "loading returned nothing");
			mi = d->get_input(), vo = d->get_output();
		} break;
		case IRIS:
		case WINE:
		case MNIST:
		case MNIST_TEST: {
			Ref<MLPPDataComplex> d = L == IRIS ? tool.load_iris(p) : L == WINE ? tool.load_wine(p) : L == MNIST ? tool.load_mnist_train(p) : tool.load_mnist_test(p);
			SIM_CHECK(d.is_valid(), "result", "loading returned nothing");
			mi = d->get_input(), mo = d->get_output();
		} break;
		case FIRES: {
			Ref<MLPPDataESimple> d = tool.load_fires_and_crime(p);
			SIM_CHECK(d.is_valid(), "result", "loading returned nothing");
			vi = d->get_input(), vo = d->get_output();
		} break;
		case RAW_SUP:
			prefill();
			tool.set_data_supervised(k, p, mi, vo);
			break;
		case RAW_UNSUP:
			prefill();
			tool.set_data_unsupervised(k, p, mi);
			break;
		default:
			prefill();
			tool.set_data_simple(p, vi, vo);
	}
	if (f.size() < 200) ev("file: %s", f.c_str());
	bool reported = lib_errors() > e0;
	bool io_failed = fs::fired() > fired;
	ev("loader %d rows %d ok %d reported %d io %d", L, rows, t.ok, reported, io_failed);
	SIM_CHECK(fs::open_handles() == 0, "handles", "after loading, open: %s", fs::open_desc().c_str());
	if (unclear) return;
	std::vector<Row> got_in, got_out;
	if (pairs) {
		for (int i = 0; i < vi->size(); i++) got_in.push_back({ vi->element_get(i) });
	} else {
		for (int i = 0; i < mi->size().y; i++) got_in.push_back(row_of(mi, i));
	}
	if (classes) {
		for (int i = 0; mo.is_valid() && i < mo->size().y; i++) got_out.push_back(row_of(mo, i));
	} else if (L != RAW_UNSUP) {
		for (int i = 0; i < vo->size(); i++) got_out.push_back({ vo->element_get(i) });
	}
	if (reported) {
		SIM_CHECK(!t.ok || io_failed, "refused", "a whole, well formed file of %zu rows was reported as bad", t.rows.size());
		// nothing invented: empty, as it was before, or untouched
		bool empty = got_in.empty() && got_out.empty();
		bool untouched = prefilled;
		for (auto &r : got_in) {
			for (double v : r) untouched = untouched && (v == 42 || v == 43);
		}
		for (auto &r : got_out) {
			for (double v : r) untouched = untouched && v == 44;
		}
		SIM_CHECK(empty || untouched, "invented", "a failed load left %zu examples", got_in.size());
		probe(4, "load reported, nothing invented");
		return;
	}
	SIM_CHECK(t.ok, "unreported", "a file with a malformed row, or none at all, was loaded without a report (%zu examples)", got_in.size());
	bool same = got_in.size() == want_in.size() && got_out.size() == want_out.size();
	SIM_CHECK(same, "rows", "%zu examples and %zu labels from a file with %zu", got_in.size(), got_out.size(), want_in.size());
	for (size_t i = 0; i < got_in.size(); i++) {
		SIM_CHECK(got_in[i].size() == want_in[i].size(), "columns", "example %zu has %zu values, expected %zu", i, got_in[i].size(), want_in[i].size());
		for (size_t j = 0; j < got_in[i].size(); j++) SIM_CHECK(close_to(got_in[i][j], want_in[i][j]), "value", "row %zu column %zu: %.9g in the file, %.9g loaded", i, j, want_in[i][j], got_in[i][j]);
	}
	for (size_t i = 0; i < got_out.size(); i++) {
		SIM_CHECK(got_out[i].size() == want_out[i].size(), "labels", "label %zu has another size", i);
		for (size_t j = 0; j < got_out[i].size(); j++) SIM_CHECK(close_to(got_out[i][j], want_out[i][j]), "labels", "row %zu: label %.9g in the file, %.9g loaded", i, want_out[i][j], got_out[i][j]);
	}
	if (!got_in.empty()) probe(5, "data set loaded as in the file");
}
// ---- L07 -------------------------------------------------------------------------------------------------
static void l07() {
	fs::mkdirs("/w/d");
	if (choose(ST_CFG, 2)) fs::faults.short_io = true;
	switch (choose(ST_CFG, 4)) {
		case 0:
		case 1: break;
		case 2: fs::faults.fail_nth_syscall = fs::syscalls() + 1 + choose(ST_CFG, 40); break;
		default: {
			static const FaultKind ks[] = { F_WRITE_EIO, F_WRITE_ENOSPC, F_CLOSE, F_OPEN };
			for (FaultKind q : ks) {
				if (choose(ST_CFG, 2)) fs::faults.rate[q] = 20 + choose(ST_CFG, 300);
			}
		}
	}
	if (choose(ST_CFG, 5) == 0) fs::faults.capacity = choose(ST_CFG, 300);
	std::ostringstream said;
	std::streambuf *old = std::cout.rdbuf(said.rdbuf());
	MLPPUtilities u;
	int n = 1 + wchoose(5);
	for (int i = 0; i < n; i++) {
		std::string path = wchoose(12) ? "/w/d/p.txt" : "/w/none/p.txt", before, after, want;
		fs::get(path, &before);
		int layer = (int)wchoose(5) - 1;
		bool app = wchoose(2);
		int way = wchoose(3);
		std::string info = layer > -1 ? " for layer " + std::to_string(layer) : "";
		auto num = [&](real_t v) {
			std::ostringstream s;
			s << v;
			want += s.str() + "\n";
		};
		auto val = [&]() -> real_t {
			switch (wchoose(5)) {
				case 0: return 0;
				case 1: return (int)wchoose(100) - 50;
				case 2: return ((int)wchoose(2000000) - 1000000) / 1e4f;
				case 3: return ((int)wchoose(2000000) - 1000000) * 1e-12f;
				default: return ((int)wchoose(2000000) - 1000000) * 1e9f;
			}
		};
		int rows = wchoose(10) == 0 ? 300 : wchoose(6), cols = 1 + wchoose(4);
		uint64_t fired = fs::fired(), e0 = lib_errors();
		size_t said0 = said.str().size();
		bool dflt = layer == -1 && !app && wchoose(2);
		want = "Weight(s)" + info + "\n";
		if (way == 2) {
			std::vector<std::vector<real_t>> w(rows);
			std::vector<real_t> b;
			bool ragged = rows < 10 && wchoose(3) == 0; // rows of different lengths
			for (auto &r : w) {
				for (int c = ragged ? (int)wchoose(5) : cols; c > 0; c--) r.push_back(val()), num(r.back());
			}
			want += "Bias(es)" + info + "\n";
			for (int c = ragged ? (int)wchoose(5) : cols; c > 0; c--) b.push_back(val()), num(b.back());
			if (dflt) {
				u.saveParameters(path, w, b);
			} else {
				u.saveParameters(path, w, b, app, layer);
			}
		} else {
			std::vector<real_t> w, ini;
			for (int c = 0; c < rows; c++) w.push_back(val()), num(w.back());
			if (way == 1) {
				want += "Initial(s)" + info + "\n";
				for (int c = wchoose(3) ? rows : (int)wchoose(6); c > 0; c--) ini.push_back(val()), num(ini.back());
			}
			real_t b = val();
			want += "Bias" + info + "\n";
			num(b);
			if (way == 1) {
				if (dflt) {
					u.saveParameters(path, w, ini, b);
				} else {
					u.saveParameters(path, w, ini, b, app, layer);
				}
			} else if (dflt) {
				u.saveParameters(path, w, b);
			} else {
				u.saveParameters(path, w, b, app, layer);
			}
		}
		bool spoke = said.str().size() > said0 || lib_errors() > e0;
		bool there = fs::get(path, &after);
		ev("save way %d app %d rows %d layer %d spoke %d: %s", way, app, rows, layer, spoke, said.str().c_str() + said0);
		SIM_CHECK(fs::open_handles() == 0, "handles", "after saving, open: %s", fs::open_desc().c_str());
		if (!spoke) {
			std::string full = (app ? before : "") + want;
			SIM_CHECK(there && after == full, "incomplete", "saving %d weights said nothing; the file has %zu bytes, expected %zu", rows, after.size(), full.size());
			probe(6, "parameters saved");
		} else {
			SIM_CHECK(fs::fired() > fired || path.find("none") != std::string::npos, "refused", "saving complained although nothing failed");
			if (app) SIM_CHECK(after.compare(0, before.size(), before) == 0, "appended", "a failed append damaged what was in the file");
			probe(7, "failed save was reported");
		}
	}
	std::cout.rdbuf(old);
}
} // namespace
SCENARIO(L01, splits, 1) { l01_split(); }
SCENARIO(L01, batches, 1) { l01_batches(); }
SCENARIO(L02, weights, 1) { l02_weights(); }
SCENARIO(L03, clusters, 1) { l03(); }
SCENARIO(L06, tables, 1) { l06(); }
SCENARIO(L07, parameters, 1) { l07(); }
