// L04 (training is a function of data, settings and draws), L05 (training under any draws ends on time, in bounds),
// L08 (what a model learned survives predictions and further training).
#include "common.h"
#include "core/activation.h"
#include "core/cost.h"
#include "core/reg.h"
#include "core/utilities.h"
#include "modules/ann/ann.h"
#include "modules/auto_encoder/auto_encoder.h"
#include "modules/bernoulli_nb/bernoulli_nb.h"
#include "modules/c_log_log_reg/c_log_log_reg.h"
#include "modules/dual_svc/dual_svc.h"
#include "modules/exp_reg/exp_reg.h"
#include "modules/gan/gan.h"
#include "modules/gaussian_nb/gaussian_nb.h"
#include "modules/kmeans/kmeans.h"
#include "modules/knn/knn.h"
#include "modules/lin_reg/lin_reg.h"
#include "modules/log_reg/log_reg.h"
#include "modules/mann/mann.h"
#include "modules/mlp/mlp.h"
#include "modules/multinomial_nb/multinomial_nb.h"
#include "modules/outlier_finder/outlier_finder.h"
#include "modules/pca/pca.h"
#include "modules/probit_reg/probit_reg.h"
#include "modules/softmax_net/softmax_net.h"
#include "modules/softmax_reg/softmax_reg.h"
#include "modules/svc/svc.h"
#include "modules/tanh_reg/tanh_reg.h"
#include "modules/uni_lin_reg/uni_lin_reg.h"
#include "modules/wgan/wgan.h"
#include <algorithm>
#include <cmath>
#include <set>
using namespace sim;

namespace {
enum Kind {
	K_LIN, K_LOG, K_CLOGLOG, K_EXP, K_PROBIT, K_TANH, K_SOFTMAX, K_SVC, K_DUAL, K_MLP, K_SMNET, K_AUTO, K_ANN, K_MANN, K_GAN, K_WGAN,
	K_UNI, K_KMEANS, K_KNN, K_GNB, K_MNB, K_BNB, K_PCA, K_OUT, K_MAX
};
// What a training method does with the examples.
enum { ALL = 1, // every epoch goes through every example
	ONE = 2, // every epoch draws one example
	STATE = 4, // keeps moments of its own from epoch to epoch
	ONCE = 8 }; // no epochs: one computation
struct Method {
	const char *name;
	int flags;
};
static const Method lin_methods[] = { { "gradient_descent", ALL }, { "sgd", ONE }, { "mbgd", ALL }, { "momentum", ALL | STATE }, { "nag", ALL | STATE }, { "adagrad", ALL | STATE }, { "adadelta", ALL | STATE },
	{ "adam", ALL | STATE }, { "adamax", ALL | STATE }, { "nadam", ALL | STATE }, { "newton_raphson", ALL }, { "normal_equation", ALL | ONCE } };
static const Method four_methods[] = { { "gradient_descent", ALL }, { "sgd", ONE }, { "mbgd", ALL }, { "mle", ALL } };
static const Method ann_methods[] = { { "gradient_descent", ALL }, { "sgd", ONE }, { "mbgd", ALL }, { "momentum", ALL | STATE }, { "nag", ALL | STATE }, { "adagrad", ALL | STATE }, { "adadelta", ALL | STATE },
	{ "adam", ALL | STATE }, { "adamax", ALL | STATE }, { "nadam", ALL | STATE }, { "amsgrad", ALL | STATE } };
static const Method once_method[] = { { "fit", ALL | ONCE } };
static const Method km_method[] = { { "train", ALL } };
struct KindInfo {
	const char *name;
	const Method *m;
	int nm;
};
static const KindInfo kinds[K_MAX] = { { "lin_reg", lin_methods, 12 }, { "log_reg", four_methods, 4 }, { "c_log_log_reg", four_methods, 4 }, { "exp_reg", four_methods, 3 }, { "probit_reg", four_methods, 4 },
	{ "tanh_reg", four_methods, 3 }, { "softmax_reg", four_methods, 3 }, { "svc", four_methods, 3 }, { "dual_svc", four_methods, 1 }, { "mlp", four_methods, 3 }, { "softmax_net", four_methods, 3 },
	{ "auto_encoder", four_methods, 3 }, { "ann", ann_methods, 11 }, { "mann", four_methods, 1 }, { "gan", four_methods, 1 }, { "wgan", four_methods, 1 }, { "uni_lin_reg", once_method, 1 }, { "kmeans", km_method, 1 },
	{ "knn", once_method, 1 }, { "gaussian_nb", once_method, 1 }, { "multinomial_nb", once_method, 1 }, { "bernoulli_nb", once_method, 1 }, { "pca", once_method, 1 }, { "outlier_finder", once_method, 1 } };

struct Rec {
	int kind, method;
	int n, k, classes, hidden, nt, epochs, batch;
	bool ui;
	MLPPReg::RegularizationType reg;
	real_t lambda, alpha, lr;
	std::vector<int> layers, acts; // networks
	int out_act, cost, wd, sched;
	std::vector<float> X, y, Xt;
	std::vector<int> cls;
	uint64_t words; // seed of the entropy source
	int flags() const { return kinds[kind].m[method].flags; }
	const char *mname() const { return kinds[kind].m[method].name; }
	const char *kname() const { return kinds[kind].name; }
};
struct Out {
	std::vector<float> v;
	std::string text;
	int max_epoch = 0, epochs = 0;
	void num(double x) { v.push_back((float)x); }
	void vec(const Ref<MLPPVector> &x) {
		SIM_CHECK(x.is_valid(), "no-result", "no prediction was made");
		v.push_back((float)x->size());
		for (int i = 0; i < x->size(); i++) v.push_back(x->element_get(i));
	}
	void mat(const Ref<MLPPMatrix> &x) {
		SIM_CHECK(x.is_valid(), "no-result", "no prediction was made");
		v.push_back((float)x->size().x);
		v.push_back((float)x->size().y);
		for (int i = 0; i < x->data_size(); i++) v.push_back(x->element_get_index(i));
	}
};
static bool same(float a, float b) {
	if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	return memcmp(&a, &b, sizeof(a)) == 0 || a == b;
}
// Differs at this place, or -1.
static int differs(const std::vector<float> &a, const std::vector<float> &b) {
	if (a.size() != b.size()) return (int)std::min(a.size(), b.size());
	for (size_t i = 0; i < a.size(); i++) {
		if (!same(a[i], b[i])) return (int)i;
	}
	return -1;
}
static Ref<MLPPMatrix> matrix(int rows, int cols, const float *d) {
	Ref<MLPPMatrix> m;
	m.instance();
	m->resize(Size2i(cols, rows));
	for (int i = 0; i < rows; i++) {
		for (int j = 0; j < cols; j++) m->element_set(i, j, d[i * cols + j]);
	}
	return m;
}
static Ref<MLPPVector> vector(int n, const float *d) {
	Ref<MLPPVector> m;
	m.instance();
	m->resize(n);
	for (int i = 0; i < n; i++) m->element_set(i, d[i]);
	return m;
}
static bool net_kind(int k) { return k == K_ANN || k == K_MANN || k == K_GAN || k == K_WGAN; }
static bool draws_to_predict(int k) { return k == K_GAN || k == K_WGAN; }

static Rec make_rec(int kind) {
	Rec r;
	r.kind = kind;
	r.method = wchoose(kinds[kind].nm);
	r.n = wchoose(3) ? 1 + wchoose(6) : 1 + wchoose(14);
	r.k = 1 + wchoose(4);
	r.classes = 2 + wchoose(3);
	r.hidden = 1 + wchoose(4);
	r.nt = 1 + wchoose(4);
	r.epochs = 1 + wchoose(wchoose(3) ? 4 : 12);
	if (wchoose(12) == 0) r.epochs = 0;
	r.batch = 1 + wchoose(r.n);
	r.ui = wchoose(2);
	r.reg = (MLPPReg::RegularizationType)(wchoose(3) ? 0 : wchoose(5));
	r.lambda = (real_t)(1 + wchoose(8)) / 16;
	r.alpha = (real_t)wchoose(5) / 4;
	static const real_t rates[] = { (real_t)0.01, (real_t)0.1, (real_t)0.5, (real_t)0.001 };
	r.lr = rates[wchoose(4)];
	r.out_act = r.cost = r.wd = r.sched = 0;
	if (net_kind(kind)) {
		int nl = wchoose(3);
		if (kind == K_GAN || kind == K_WGAN) nl = 3;
		static const int acts[] = { 1, 0, 18, 6, 7, 2, 3, 12, 13, 9, 16, 22, 20, 11, 14, 15 };
		for (int i = 0; i < nl; i++) {
			r.layers.push_back(1 + wchoose(4));
			r.acts.push_back(acts[wchoose(wchoose(2) ? 5 : 16)]);
		}
		if (kind == K_GAN || kind == K_WGAN) r.layers[1] = r.k;
		r.out_act = acts[wchoose(3)];
		r.cost = wchoose(2) ? 0 : wchoose(8);
		if (kind == K_MANN && wchoose(3) == 0) r.out_act = MLPPActivation::ACTIVATION_FUNCTION_SOFTMAX, r.cost = MLPPCost::COST_TYPE_CROSS_ENTROPY;
		r.wd = wchoose(8);
		r.sched = wchoose(6);
	}
	for (int i = 0; i < r.n; i++) {
		r.cls.push_back(wchoose(r.classes));
		for (int j = 0; j < r.k; j++) r.X.push_back((float)((int)wchoose(17) - 8) / 4);
	}
	// Every class has an example where there are enough.
	for (int c = 0; c < r.classes && c < r.n; c++) r.cls[c] = c;
	for (int i = 0; i < r.nt * r.k; i++) r.Xt.push_back((float)((int)wchoose(17) - 8) / 4);
	for (int i = 0; i < r.n; i++) {
		switch (kind) {
			case K_LIN: case K_EXP: case K_UNI: case K_ANN: r.y.push_back((float)((int)wchoose(17) - 8) / 4); break;
			case K_SVC: case K_DUAL: case K_TANH: r.y.push_back(r.cls[i] & 1 ? 1 : -1); break;
			case K_GNB: case K_MNB: case K_KNN: r.y.push_back((float)r.cls[i]); break;
			default: r.y.push_back((float)(r.cls[i] & 1)); break;
		}
	}
	if (kind == K_EXP) {
		for (float &x : r.X) x = std::fabs(x) / 4 + 0.25f;
		for (float &x : r.Xt) x = std::fabs(x) / 4 + 0.25f;
	}
	if (kind == K_MNB || kind == K_BNB) {
		for (float &x : r.X) x = (float)(int)std::fabs(x * (kind == K_BNB ? 0.5f : 2));
		for (float &x : r.Xt) x = (float)(int)std::fabs(x * (kind == K_BNB ? 0.5f : 2));
	}
	r.words = bits(ST_W0) | 1;
	return r;
}
// The data of one session, built afresh.
struct Data {
	Ref<MLPPMatrix> X, Y, Xt;
	Ref<MLPPVector> y, x0;
	std::vector<float> oX, oY, oy, oXt, ox0;
	Data(const Rec &r) {
		X = matrix(r.n, r.k, r.X.data());
		y = vector(r.n, r.y.data());
		std::vector<float> hot(r.n * r.classes, 0);
		for (int i = 0; i < r.n; i++) hot[i * r.classes + r.cls[i]] = 1;
		Y = matrix(r.n, r.classes, hot.data());
		Xt = matrix(r.nt, r.k, r.Xt.data());
		x0 = vector(r.k, r.Xt.data());
		dump(oX, oY, oy, oXt, ox0);
	}
	void dump(std::vector<float> &a, std::vector<float> &b, std::vector<float> &c, std::vector<float> &d, std::vector<float> &e) {
		Out o;
		o.mat(X);
		a.swap(o.v);
		o.v.clear();
		o.mat(Y);
		b.swap(o.v);
		o.v.clear();
		o.vec(y);
		c.swap(o.v);
		o.v.clear();
		o.mat(Xt);
		d.swap(o.v);
		o.v.clear();
		o.vec(x0);
		e.swap(o.v);
	}
	void check(const Rec &r, const char *when) {
		std::vector<float> a, b, c, d, e;
		dump(a, b, c, d, e);
		SIM_CHECK(differs(a, oX) < 0, "inputs", "%s.%s changed the training inputs (%s)", r.kname(), r.mname(), when);
		SIM_CHECK(differs(b, oY) < 0 && differs(c, oy) < 0, "labels", "%s.%s changed the training labels (%s)", r.kname(), r.mname(), when);
		SIM_CHECK(differs(d, oXt) < 0 && differs(e, ox0) < 0, "test-inputs", "%s.%s changed the examples to predict (%s)", r.kname(), r.mname(), when);
	}
};
// One model of any kind.
struct Model {
	std::function<void(int)> train; // so many epochs
	std::function<void(Out &)> predict;
	std::function<void(Out &)> score;
};
template <class M>
static void vec_predict(Model &o, Ref<M> m, Data &d) {
	Data *dp = &d;
	o.predict = [m, dp](Out &q) mutable {
		q.vec(m->model_set_test(dp->Xt));
		q.num(m->model_test(dp->x0));
	};
	o.score = [m](Out &q) mutable { q.num(m->score()); };
}
template <class M>
static void mat_predict(Model &o, Ref<M> m, Data &d) {
	Data *dp = &d;
	o.predict = [m, dp](Out &q) mutable {
		q.mat(m->model_set_test(dp->Xt));
		q.vec(m->model_test(dp->x0));
	};
	o.score = [m](Out &q) mutable { q.num(m->score()); };
}
static Model make_model(const Rec &r, Data &d) {
	Model o;
	const Rec *p = &r;
	const real_t b1 = (real_t)0.5, b2 = (real_t)0.75, e = (real_t)1e-4, gamma = (real_t)0.5;
#define GSM(m, pre)                                                             \
	o.train = [m, p](int ep) mutable {                                          \
		switch (p->method) {                                                    \
			case 0: m->pre##gradient_descent(p->lr, ep, p->ui); break;         \
			case 1: m->pre##sgd(p->lr, ep, p->ui); break;                      \
			case 2: m->pre##mbgd(p->lr, ep, p->batch, p->ui); break;           \
		}                                                                       \
	}
#define GSMM(m, pre)                                                            \
	o.train = [m, p](int ep) mutable {                                          \
		switch (p->method) {                                                    \
			case 0: m->pre##gradient_descent(p->lr, ep, p->ui); break;         \
			case 1: m->pre##sgd(p->lr, ep, p->ui); break;                      \
			case 2: m->pre##mbgd(p->lr, ep, p->batch, p->ui); break;           \
			case 3: m->pre##mle(p->lr, ep, p->ui); break;                      \
		}                                                                       \
	}
	switch (r.kind) {
		case K_LIN: {
			Ref<MLPPLinReg> m(memnew(MLPPLinReg(d.X, d.y, r.reg, r.lambda, r.alpha)));
			vec_predict(o, m, d);
			o.train = [=](int ep) mutable {
				switch (p->method) {
					case 0: m->gradient_descent(p->lr, ep, p->ui); break;
					case 1: m->sgd(p->lr, ep, p->ui); break;
					case 2: m->mbgd(p->lr, ep, p->batch, p->ui); break;
					case 3: m->momentum(p->lr, ep, p->batch, gamma, p->ui); break;
					case 4: m->nag(p->lr, ep, p->batch, gamma, p->ui); break;
					case 5: m->adagrad(p->lr, ep, p->batch, e, p->ui); break;
					case 6: m->adadelta(p->lr, ep, p->batch, b1, e, p->ui); break;
					case 7: m->adam(p->lr, ep, p->batch, b1, b2, e, p->ui); break;
					case 8: m->adamax(p->lr, ep, p->batch, b1, b2, e, p->ui); break;
					case 9: m->nadam(p->lr, ep, p->batch, b1, b2, e, p->ui); break;
					case 10: m->newton_raphson(p->lr, ep, p->ui); break;
					case 11: m->normal_equation(); break;
				}
			};
		} break;
		case K_LOG: {
			Ref<MLPPLogReg> m(memnew(MLPPLogReg(d.X, d.y, r.reg, r.lambda, r.alpha)));
			vec_predict(o, m, d);
			GSMM(m, );
		} break;
		case K_CLOGLOG: {
			Ref<MLPPCLogLogReg> m(memnew(MLPPCLogLogReg(d.X, d.y, r.reg, r.lambda, r.alpha)));
			vec_predict(o, m, d);
			GSMM(m, );
		} break;
		case K_EXP: {
			Ref<MLPPExpReg> m(memnew(MLPPExpReg(d.X, d.y, r.reg, r.lambda, r.alpha)));
			vec_predict(o, m, d);
			GSM(m, );
		} break;
		case K_PROBIT: {
			Ref<MLPPProbitReg> m(memnew(MLPPProbitReg(d.X, d.y, r.reg, r.lambda, r.alpha)));
			vec_predict(o, m, d);
			GSMM(m, train_);
		} break;
		case K_TANH: {
			Ref<MLPPTanhReg> m(memnew(MLPPTanhReg(d.X, d.y, r.reg, r.lambda, r.alpha)));
			vec_predict(o, m, d);
			GSM(m, train_);
		} break;
		case K_SOFTMAX: {
			Ref<MLPPSoftmaxReg> m(memnew(MLPPSoftmaxReg(d.X, d.Y, r.reg, r.lambda, r.alpha)));
			mat_predict(o, m, d);
			GSM(m, train_);
		} break;
		case K_SVC: {
			Ref<MLPPSVC> m(memnew(MLPPSVC(d.X, d.y, r.lambda)));
			vec_predict(o, m, d);
			GSM(m, train_);
		} break;
		case K_DUAL: {
			Ref<MLPPDualSVC> m(memnew(MLPPDualSVC(d.X, d.y, r.lambda)));
			vec_predict(o, m, d);
			o.train = [=](int ep) mutable { m->gradient_descent(p->lr, ep, p->ui); };
		} break;
		case K_MLP: {
			Ref<MLPPMLP> m(memnew(MLPPMLP(d.X, d.y, r.hidden, r.reg, r.lambda, r.alpha)));
			vec_predict(o, m, d);
			GSM(m, );
		} break;
		case K_SMNET: {
			Ref<MLPPSoftmaxNet> m(memnew(MLPPSoftmaxNet(d.X, d.Y, r.hidden, r.reg, r.lambda, r.alpha)));
			mat_predict(o, m, d);
			GSM(m, train_);
		} break;
		case K_AUTO: {
			Ref<MLPPAutoEncoder> m(memnew(MLPPAutoEncoder(d.X, r.hidden)));
			mat_predict(o, m, d);
			GSM(m, );
		} break;
		case K_ANN: {
			Ref<MLPPANN> m(memnew(MLPPANN(d.X, d.y)));
			for (size_t i = 0; i < r.layers.size(); i++) m->add_layer(r.layers[i], (MLPPActivation::ActivationFunction)r.acts[i], (MLPPUtilities::WeightDistributionType)r.wd, r.reg, r.lambda, r.alpha);
			m->add_output_layer((MLPPActivation::ActivationFunction)r.out_act, (MLPPCost::CostTypes)r.cost, (MLPPUtilities::WeightDistributionType)r.wd, r.reg, r.lambda, r.alpha);
			if (r.sched == 5) {
				m->set_learning_rate_scheduler_drop(MLPPANN::SCHEDULER_TYPE_STEP, (real_t)0.5, 2);
			} else if (r.sched && r.sched != 3) {
				m->set_learning_rate_scheduler((MLPPANN::SchedulerType)r.sched, (real_t)0.5);
			}
			vec_predict(o, m, d);
			o.train = [=](int ep) mutable {
				switch (p->method) {
					case 0: m->gradient_descent(p->lr, ep, p->ui); break;
					case 1: m->sgd(p->lr, ep, p->ui); break;
					case 2: m->mbgd(p->lr, ep, p->batch, p->ui); break;
					case 3: m->momentum(p->lr, ep, p->batch, gamma, false, p->ui); break;
					case 4: m->momentum(p->lr, ep, p->batch, gamma, true, p->ui); break;
					case 5: m->adagrad(p->lr, ep, p->batch, e, p->ui); break;
					case 6: m->adadelta(p->lr, ep, p->batch, b1, e, p->ui); break;
					case 7: m->adam(p->lr, ep, p->batch, b1, b2, e, p->ui); break;
					case 8: m->adamax(p->lr, ep, p->batch, b1, b2, e, p->ui); break;
					case 9: m->nadam(p->lr, ep, p->batch, b1, b2, e, p->ui); break;
					case 10: m->amsgrad(p->lr, ep, p->batch, b1, b2, e, p->ui); break;
				}
			};
		} break;
		case K_MANN: {
			Ref<MLPPMANN> m(memnew(MLPPMANN(d.X, d.Y)));
			for (size_t i = 0; i < r.layers.size(); i++) m->add_layer(r.layers[i], (MLPPActivation::ActivationFunction)r.acts[i], (MLPPUtilities::WeightDistributionType)r.wd, r.reg, r.lambda, r.alpha);
			m->add_output_layer((MLPPActivation::ActivationFunction)r.out_act, (MLPPCost::CostTypes)r.cost, (MLPPUtilities::WeightDistributionType)r.wd, r.reg, r.lambda, r.alpha);
			mat_predict(o, m, d);
			o.train = [=](int ep) mutable { m->gradient_descent(p->lr, ep, p->ui); };
		} break;
		case K_GAN: {
			Ref<MLPPGAN> m(memnew(MLPPGAN(2, d.X)));
			for (size_t i = 0; i < r.layers.size(); i++) m->add_layer(r.layers[i], (MLPPActivation::ActivationFunction)r.acts[i], (MLPPUtilities::WeightDistributionType)r.wd, r.reg, r.lambda, r.alpha);
			m->add_output_layer((MLPPUtilities::WeightDistributionType)r.wd, r.reg, r.lambda, r.alpha);
			o.train = [=](int ep) mutable { m->gradient_descent(p->lr, ep, p->ui); };
			o.predict = [=](Out &q) mutable { q.mat(m->generate_example(p->nt)); };
			o.score = [=](Out &q) mutable { q.num(m->score()); };
		} break;
		case K_WGAN: {
			Ref<MLPPWGAN> m(memnew(MLPPWGAN(2, d.X)));
			for (size_t i = 0; i < r.layers.size(); i++) m->create_layer(r.layers[i], (MLPPActivation::ActivationFunction)r.acts[i], (MLPPUtilities::WeightDistributionType)r.wd, r.reg, r.lambda, r.alpha);
			m->add_output_layer((MLPPUtilities::WeightDistributionType)r.wd, r.reg, r.lambda, r.alpha);
			o.train = [=](int ep) mutable { m->gradient_descent(p->lr, ep, p->ui); };
			o.predict = [=](Out &q) mutable { q.mat(m->generate_example(p->nt)); };
			o.score = [=](Out &q) mutable { q.num(m->score()); };
		} break;
		case K_UNI: {
			Ref<MLPPUniLinReg> m(memnew(MLPPUniLinReg(d.y, d.y)));
			o.train = [=](int) mutable { m->train(); };
			Data *dp = &d;
			o.predict = [=](Out &q) mutable {
				q.vec(m->model_set_test(dp->y));
				q.num(m->model_test(dp->x0->element_get(0)));
			};
			o.score = [=](Out &q) mutable { q.num(m->get_b0()); q.num(m->get_b1()); };
		} break;
		case K_KMEANS: {
			Ref<MLPPKMeans> m(memnew(MLPPKMeans));
			m->set_input_set(d.X);
			m->set_k(1 + std::min(r.classes, r.n) - 1);
			m->set_mean_type(r.hidden & 1 ? MLPPKMeans::MEAN_TYPE_KMEANSPP : MLPPKMeans::MEAN_TYPE_CENTROID);
			m->initialize();
			mat_predict(o, m, d);
			o.train = [=](int ep) mutable { m->train(ep, p->ui); };
		} break;
		case K_KNN: {
			Ref<MLPPKNN> m(memnew(MLPPKNN));
			m->set_input_set(d.X);
			m->set_output_set(d.y);
			m->set_k(1 + r.hidden % r.n);
			o.train = [](int) {};
			Data *dp = &d;
			o.predict = [=](Out &q) mutable {
				PoolIntArray a = m->model_set_test(dp->Xt);
				for (int i = 0; i < a.size(); i++) q.num(a[i]);
				q.num(m->model_test(dp->x0));
			};
			o.score = [=](Out &q) mutable { q.num(m->score()); };
		} break;
		case K_GNB: {
			Ref<MLPPGaussianNB> m(memnew(MLPPGaussianNB(d.X, d.y, r.classes)));
			o.train = [](int) {};
			vec_predict(o, m, d);
		} break;
		case K_MNB: {
			Ref<MLPPMultinomialNB> m(memnew(MLPPMultinomialNB(d.X, d.y, r.classes)));
			o.train = [](int) {};
			vec_predict(o, m, d);
		} break;
		case K_BNB: {
			Ref<MLPPBernoulliNB> m(memnew(MLPPBernoulliNB(d.X, d.y)));
			o.train = [](int) {};
			vec_predict(o, m, d);
		} break;
		case K_PCA: {
			Ref<MLPPPCA> m(memnew(MLPPPCA(d.X, 1 + r.hidden % r.k)));
			o.train = [](int) {};
			o.predict = [=](Out &q) mutable { q.mat(m->principal_components()); };
			o.score = [=](Out &q) mutable { q.num(m->score()); };
		} break;
		case K_OUT: {
			Ref<MLPPOutlierFinder> m(memnew(MLPPOutlierFinder(r.lambda * 2)));
			o.train = [](int) {};
			Data *dp = &d;
			o.predict = [=](Out &q) mutable {
				Vector<Vector<real_t>> a = m->model_set_test(dp->Xt);
				for (int i = 0; i < a.size(); i++) {
					q.num(a[i].size());
					for (int j = 0; j < a[i].size(); j++) q.num(a[i][j]);
				}
				PoolVector2iArray b = m->model_set_test_indices(dp->Xt);
				for (int i = 0; i < b.size(); i++) q.num(b[i].x * 1000 + b[i].y);
				PoolRealArray c = m->model_test(dp->x0);
				for (int i = 0; i < c.size(); i++) q.num(c[i]);
			};
			o.score = [](Out &) {};
		} break;
	}
	return o;
}
static __attribute__((noinline)) void dirty_stack(int v) {
	char a[64 * 1024];
	memset(a, v, sizeof(a));
	asm volatile("" : : "r"(a) : "memory");
}
static int epoch_of(const std::string &line) {
	size_t i = line.find("This is epoch: ");
	return i == std::string::npos ? 0 : atoi(line.c_str() + i + 15);
}
struct Listen {
	Listen(Out &o) {
		Out *q = &o;
		on_line = [q](const std::string &s) {
			q->text += s;
			q->text += '\n';
			int e = epoch_of(s);
			if (e) {
				if (e != q->max_epoch) q->epochs++;
				q->max_epoch = std::max(q->max_epoch, e);
			}
		};
	}
	~Listen() { on_line = nullptr; }
};
static bool ui_prints(const Rec &r) { return r.ui && !(r.flags() & ONCE); }
static void describe(const char *what, const Rec &r) {
	ev("%s %s.%s n=%d k=%d classes=%d hidden=%d epochs=%d batch=%d reg=%d layers=%zu cost=%d", what, r.kname(), r.mname(), r.n, r.k, r.classes, r.hidden, r.epochs, r.batch, (int)r.reg, r.layers.size(), r.cost);
}
// Where the random numbers of what follows come from: the entropy source, and for kmeans the time of day.
static void entropy(const Rec &r, uint64_t w) {
	rd_seeded(w);
	if (r.kind == K_KMEANS) wall_hold(1700000000000000000LL + (int64_t)(w % 1000000007) * 1000);
}
static void session(const Rec &r, Out &o) {
	entropy(r, r.words);
	Listen l(o);
	Data d(r);
	Model m = make_model(r, d);
	m.train(r.epochs);
	m.predict(o);
	m.score(o);
}
static void result_hash(const Out &o) {
	uint64_t h = 1469598103934665603ULL;
	for (float f : o.v) {
		uint32_t w;
		if (std::isnan(f)) f = NAN;
		memcpy(&w, &f, 4);
		h = (h ^ w) * 1099511628211ULL;
	}
	hash_mix(h);
}

static void l04(int kind) {
	Rec r = make_rec(kind);
	describe("twice", r);
	set_step_limit(40000000, 200000000);
	uint64_t g = bits(ST_GARB) | 1;
	set_garbage(choose(ST_CFG, 3) ? 0 : g);
	dirty_stack(0);
	Out a, b;
	session(r, a);
	result_hash(a);
	// Everything else is another world: other memory contents and addresses, another time, other work done before.
	set_garbage(g ^ 0x5555);
	set_heap_reuse(choose(ST_CFG, 2));
	advance_ns(1000000ULL * (1 + choose(ST_CFG, 100000)));
	if (choose(ST_CFG, 2)) {
		static const int quiet[] = { K_LIN, K_LOG, K_EXP, K_CLOGLOG };
		Rec other = make_rec(quiet[choose(ST_CFG, 4)]);
		other.method = 0;
		other.epochs = 1;
		other.ui = false;
		Out c;
		session(other, c);
	}
	std::vector<std::vector<char>> keep;
	for (int i = (int)choose(ST_CFG, 6); i > 0; i--) keep.push_back(std::vector<char>(1 + choose(ST_CFG, 300), (char)0xa5));
	dirty_stack(choose(ST_CFG, 2) ? 0x7f : 0xc1);
	session(r, b);
	int at = differs(a.v, b.v);
	if (at >= 0) {
		bool have = (size_t)at < a.v.size() && (size_t)at < b.v.size();
		violation("differs", "%s.%s trained twice on the same data with the same draws: result %d is %g and %g", r.kname(), r.mname(), at, have ? a.v[at] : 0.0, have ? b.v[at] : 0.0);
	}
	SIM_CHECK(a.text == b.text, "text", "%s.%s trained twice on the same data with the same draws printed different numbers", r.kname(), r.mname());
	bool finite = true;
	for (float f : a.v) finite &= std::isfinite(f);
	if (finite) probe(0, "all results finite");
	if (r.ui) probe(1, "printed text compared");
}
static void l05(int kind) {
	delete new int;
	Ref<Reference> keep(memnew(Reference));
	Rec r = make_rec(kind);
	describe("train", r);
	set_step_limit(40000000, kind == K_PCA ? 20000000 : 200000000);
	set_garbage(choose(ST_CFG, 2) ? bits(ST_GARB) | 1 : 0);
	set_heap_reuse(choose(ST_CFG, 2));
	uint64_t errs = lib_errors(), live = heap_live_since(0);
	{
		Out o;
		if (choose(ST_CFG, 2)) {
			rd_seeded(r.words); // otherwise every word is a choice of its own
		} else {
			rd_seeded(0);
		}
		Listen l(o);
		Data d(r);
		Model m = make_model(r, d);
		d.check(r, "construction");
		m.train(r.epochs);
		d.check(r, "training");
		if (ui_prints(r)) {
			int want = std::max(1, r.epochs);
			SIM_CHECK(o.max_epoch <= want, "epochs", "%s.%s with an epoch limit of %d reached epoch %d", r.kname(), r.mname(), r.epochs, o.max_epoch);
			SIM_CHECK(o.epochs == want, "epochs", "%s.%s was to train for %d epochs and trained for %d", r.kname(), r.mname(), want, o.epochs);
			probe(2, "epochs counted");
		}
		m.predict(o);
		m.score(o);
		d.check(r, "prediction");
		bool singular = lib_errors() == errs + 1 && (r.method == 10 || r.method == 11) && r.kind == K_LIN; // some data has no single best line
		SIM_CHECK(lib_errors() == errs || singular, "internal-error", "%s.%s on valid data printed: %s", r.kname(), r.mname(), lib_last_error().c_str());
		result_hash(o);
	}
	uint64_t now = heap_live_since(0);
	SIM_CHECK(now == live, "leak", "%s.%s left %lld blocks behind", r.kname(), r.mname(), (long long)(now - live));
}
// Every example can take part: a poisoned example must show in the result.
static void l05_reach(int kind) {
	Rec r = make_rec(kind);
	if (r.flags() & ONCE) r.method = 0;
	r.ui = false;
	r.n = std::min(r.n, 7);
	r.X.resize(r.n * r.k);
	r.y.resize(r.n);
	r.cls.resize(r.n);
	r.batch = 1 + wchoose(r.n);
	r.reg = MLPPReg::REGULARIZATION_TYPE_NONE;
	for (int &a : r.acts) a = a == 0 || a == 18 ? a : 1;
	r.cost = 0;
	if (r.kind == K_MANN && r.out_act == MLPPActivation::ACTIVATION_FUNCTION_SOFTMAX) r.out_act = 0;
	bool one = r.flags() & ONE;
	r.epochs = one ? 60 * r.n : 1;
	int bad = wchoose(3) ? (wchoose(2) ? r.n - 1 : 0) : (int)wchoose(r.n);
	bool label = kind != K_SOFTMAX && kind != K_SMNET && kind != K_AUTO && kind != K_MANN && wchoose(3) == 0;
	if (label) {
		r.y[bad] = NAN;
	} else {
		r.X[bad * r.k + wchoose(r.k)] = NAN;
	}
	describe("reach", r);
	set_step_limit(40000000, 600000000);
	Out o;
	rd_seeded(r.words);
	Data d(r);
	Model m = make_model(r, d);
	m.train(r.epochs);
	m.predict(o);
	bool seen = false;
	for (float f : o.v) seen |= !std::isfinite(f);
	SIM_CHECK(seen, "never-drawn", "%s.%s trained %d epochs and example %d of %d had no influence on the result", r.kname(), r.mname(), r.epochs, bad, r.n);
	probe(3, "example reached");
}
// Histories: predictions and scores in between change nothing; training in portions is training at once.
// The first example to predict is asked about alone as well.
static void one_and_all(const Rec &r, const Out &o) {
	if (r.kind == K_UNI || r.kind == K_PCA || r.kind == K_OUT) return;
	bool mat = r.kind == K_SOFTMAX || r.kind == K_SMNET || r.kind == K_AUTO || r.kind == K_MANN || r.kind == K_KMEANS;
	int w = mat ? (int)o.v[0] : 1, first = mat ? 2 : r.kind == K_KNN ? 0 : 1;
	for (int j = 0; j < w; j++) {
		float a = o.v[first + j], b = o.v[o.v.size() - w + j];
		if (!std::isfinite(a) || !std::isfinite(b)) continue;
		SIM_CHECK(std::fabs(a - b) <= 1e-3f * (1 + std::fabs(a)), "one-and-all", "%s.%s predicts %g for an example among others and %g for the same example alone", r.kname(), r.mname(), a, b);
	}
	probe(6, "one and all compared");
}
static void l08(int kind) {
	Rec r = make_rec(kind);
	if (r.epochs < 1) r.epochs = 1;
	r.ui = false;
	describe("history", r);
	set_step_limit(40000000, 400000000);
	bool sched = kind == K_ANN && r.sched;
	// Portions.
	std::vector<int> parts;
	int left = r.epochs;
	while (left > 0) {
		int e = 1 + wchoose(left);
		parts.push_back(e);
		left -= e;
	}
	Out base, other;
	{
		entropy(r, r.words);
		Data d(r);
		Model m = make_model(r, d);
		for (size_t i = 0; i < parts.size(); i++) {
			entropy(r, r.words + i + 1);
			m.train(parts[i]);
		}
		if (draws_to_predict(kind)) entropy(r, r.words + 77);
		m.predict(base);
	}
	{
		entropy(r, r.words);
		Data d(r);
		Model m = make_model(r, d);
		int asks = 0;
		for (size_t i = 0; i <= parts.size(); i++) {
			for (int q = (int)wchoose(3); q > 0; q--) {
				if ((kind == K_PCA || kind == K_UNI || kind == K_KMEANS || kind == K_WGAN) && i == 0) break; // no result before training, or weights drawn by the first use
				asks++;
				Out o1, o2;
				uint64_t n = rd_draws();
				bool sc = wchoose(3) == 0 && kind != K_PCA;
				if (draws_to_predict(kind)) entropy(r, r.words + 99);
				sc ? m.score(o1) : m.predict(o1);
				SIM_CHECK(draws_to_predict(kind) || rd_draws() == n, "draws", "%s draws random numbers to %s", r.kname(), sc ? "score" : "predict");
				if (draws_to_predict(kind)) entropy(r, r.words + 99);
				sc ? m.score(o2) : m.predict(o2);
				int at = differs(o1.v, o2.v);
				SIM_CHECK(at < 0, "repeat", "%s: the same question to the same model gives %g and then %g", r.kname(), o1.v[at], (size_t)at < o2.v.size() ? o2.v[at] : 0.0);
			}
			if (i == parts.size()) break;
			entropy(r, r.words + i + 1);
			m.train(parts[i]);
		}
		if (draws_to_predict(kind)) entropy(r, r.words + 77);
		m.predict(other);
		int at = differs(base.v, other.v);
		if (asks) probe(4, "asked in between");
		SIM_CHECK(at < 0, "asking-changes", "%s.%s: predicting or scoring between the training steps changes the trained model (%g, %g)", r.kname(), r.mname(), base.v[at], (size_t)at < other.v.size() ? other.v[at] : 0.0);
	}
	if (!draws_to_predict(kind)) one_and_all(r, base);
	result_hash(base);
	if (!(r.flags() & (ONE | STATE | ONCE)) && !sched && !draws_to_predict(kind) && parts.size() > 1) {
		Out once;
		entropy(r, r.words);
		Data d(r);
		Model m = make_model(r, d);
		entropy(r, r.words + 1);
		m.train(r.epochs);
		m.predict(once);
		int at = differs(base.v, once.v);
		SIM_CHECK(at < 0, "portions", "%s.%s: training %d epochs at once and in %zu portions gives different models (%g, %g)", r.kname(), r.mname(), r.epochs, parts.size(), once.v[at], base.v[at]);
		probe(5, "portions compared");
	}
}
// Training moves towards the labels, from every random start and under every order of examples.
static double loss_of(const Rec &r, const Out &o) {
	int at = 0;
	int w = 1;
	bool mat = r.kind == K_SOFTMAX || r.kind == K_SMNET || r.kind == K_AUTO || r.kind == K_MANN;
	if (mat) {
		w = (int)o.v[0];
		at = 2;
		SIM_CHECK(w == (r.kind == K_AUTO ? r.k : r.classes) && (int)o.v[1] == r.n, "shape", "%s predicts %g x %g values for %d examples", r.kname(), o.v[1], o.v[0], r.n);
	} else {
		SIM_CHECK((int)o.v[0] == r.n, "shape", "%s predicts %g values for %d examples", r.kname(), o.v[0], r.n);
		at = 1;
	}
	double s = 0;
	for (int i = 0; i < r.n; i++) {
		for (int j = 0; j < w; j++) {
			double p = o.v[at + i * w + j], t = !mat ? r.y[i] : r.kind == K_AUTO ? r.X[i * r.k + j] : (r.cls[i] == j ? 1.0 : 0.0);
			bool log_loss = r.kind == K_LOG || r.kind == K_MLP;
			if (log_loss) {
				p = std::min(std::max(p, 1e-6), 1 - 1e-6);
				s += -(t * std::log(p) + (1 - t) * std::log(1 - p));
			} else if (r.kind == K_SOFTMAX || r.kind == K_SMNET) {
				s += -t * std::log(std::max(p, 1e-6));
			} else {
				s += (p - t) * (p - t) / 2;
			}
		}
	}
	return s / r.n;
}
static void l09(int kind) {
	Rec r = make_rec(kind);
	if (r.flags() & ONCE) r.method = 0;
	r.ui = false;
	r.reg = MLPPReg::REGULARIZATION_TYPE_NONE;
	r.cost = 0;
	r.sched = 0;
	r.n = std::max(2, std::min(r.n, 6));
	r.nt = r.n;
	r.k = 1 + wchoose(2);
	r.classes = 2 + wchoose(2);
	r.cls.assign(r.n, 0);
	r.X.clear();
	r.y.assign(r.n, 0);
	for (int &a : r.acts) a = a == 0 || a == 18 ? a : 1;
	if (r.kind == K_ANN) r.out_act = 0;
	if (r.kind == K_MANN && r.out_act != MLPPActivation::ACTIVATION_FUNCTION_SOFTMAX) r.out_act = 1;
	if (r.kind == K_MANN && r.out_act == MLPPActivation::ACTIVATION_FUNCTION_SOFTMAX) r.cost = MLPPCost::COST_TYPE_CROSS_ENTROPY;
	// A teacher of the same form makes the labels.
	double tw[2] = { (double)((int)wchoose(5) - 2) / 2, (double)((int)wchoose(5) - 2) / 2 }, tb = (double)((int)wchoose(5) - 2) / 2;
	for (int i = 0; i < r.n; i++) {
		double z = tb;
		for (int j = 0; j < r.k; j++) {
			float x = (float)((int)wchoose(5) - 2) / 2;
			if (kind == K_EXP) x = (float)(1 + (int)wchoose(2));
			if (kind == K_LIN && r.method >= 10 && i < r.k) x = i == j; // one solution only
			r.X.push_back(x);
			z += tw[j] * x;
		}
		r.cls[i] = z > 0.6 ? r.classes - 1 : z > 0 ? 1 : 0;
		switch (kind) {
			case K_LIN: case K_ANN: r.y[i] = (float)z; break;
			case K_EXP: r.y[i] = (float)(tb + std::pow(1 + tw[0] / 4, r.X[i * r.k])); break;
			case K_TANH: r.y[i] = (float)std::tanh(z); break;
			default: r.y[i] = z > 0 ? 1 : 0; break;
		}
	}
	r.Xt = r.X;
	r.batch = 1 + wchoose(r.n);
	bool one = r.flags() & ONE;
	bool deep = (kind == K_LIN || kind == K_LOG || kind == K_SOFTMAX) && wchoose(2); // one best model, whatever the start
	r.lr = (real_t)(deep ? 0.1 : 0.01);
	r.epochs = deep ? 400 : one ? 100 * r.n : 60;
	r.words = bits(ST_W0) | 1;
	describe("learn", r);
	set_step_limit(40000000, 600000000);
	rd_seeded(r.words);
	Data d(r);
	Model m = make_model(r, d);
	Out before, after;
	m.predict(before);
	double l0 = loss_of(r, before);
	m.train(r.epochs);
	m.predict(after);
	double l1 = loss_of(r, after);
	ev("loss %g -> %g", l0, l1);
	if (!std::isfinite(l0)) return;
	SIM_CHECK(l1 <= l0 * (kind == K_EXP ? 1.2 : 1.02) + (kind == K_EXP ? 0.05 : 0.02), "worse", "%s.%s: %d epochs with rate %g took the loss on the training examples from %g to %g", r.kname(), r.mname(), r.epochs, (double)r.lr, l0, l1);
	if (deep) SIM_CHECK(l1 <= l0 * (kind == K_LIN ? 0.5 : 0.9) + 0.02, "no-progress", "%s.%s: %d epochs with rate %g took the loss on the training examples from %g to %g", r.kname(), r.mname(), r.epochs, (double)r.lr, l0, l1);
	result_hash(after);
}
} // namespace
#define DATA_MODEL(nm, kind, w)         \
	SCENARIO(L04, nm, w) { l04(kind); } \
	SCENARIO(L05, nm, w) { l05(kind); } \
	SCENARIO(L08, nm, w) { l08(kind); }
#define MODEL(nm, kind, w)     \
	DATA_MODEL(nm, kind, w)    \
	SCENARIO(L05, reach_##nm, w) { l05_reach(kind); } \
	SCENARIO(L09, nm, w) { l09(kind); }
MODEL(lin_reg, K_LIN, 6)
MODEL(log_reg, K_LOG, 3)
MODEL(c_log_log_reg, K_CLOGLOG, 3)
MODEL(exp_reg, K_EXP, 3)
MODEL(probit_reg, K_PROBIT, 3)
MODEL(tanh_reg, K_TANH, 3)
MODEL(softmax_reg, K_SOFTMAX, 3)
DATA_MODEL(svc, K_SVC, 3)
DATA_MODEL(dual_svc, K_DUAL, 2)
MODEL(mlp, K_MLP, 3)
MODEL(softmax_net, K_SMNET, 3)
MODEL(auto_encoder, K_AUTO, 3)
MODEL(ann, K_ANN, 6)
MODEL(mann, K_MANN, 3)
SCENARIO(L05, gan, 1) { l05(K_GAN); }
DATA_MODEL(wgan, K_WGAN, 1)
DATA_MODEL(uni_lin_reg, K_UNI, 1)
DATA_MODEL(kmeans, K_KMEANS, 2)
DATA_MODEL(knn, K_KNN, 1)
DATA_MODEL(gaussian_nb, K_GNB, 1)
DATA_MODEL(multinomial_nb, K_MNB, 1)
DATA_MODEL(bernoulli_nb, K_BNB, 1)
DATA_MODEL(pca, K_PCA, 1)
DATA_MODEL(outlier_finder, K_OUT, 1)
