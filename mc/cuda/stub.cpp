// The part of the cuTENSOR, cuSOLVER and CUDA-stream interfaces that csrc/ uses, executed on the CPU.
// Written from the documentation of those libraries; used to run the compiled solver without a GPU.
#include <cutensor.h>
#include <cusolverDn.h>
#include <cuda_runtime.h>
#include <c10/cuda/CUDAStream.h>
#include <complex>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <vector>
#include <type_traits>

namespace {
long g_calls = 0, g_fail_at = -1, g_workspace = 0, g_min_workspace = 0, g_misuse = 0;
std::map<std::string, long> g_counts;
std::set<void*> g_live;

bool fails(const char* name) {
    ++g_counts[name];
    return ++g_calls == g_fail_at;
}
struct Desc { std::vector<int64_t> ext, str; cudaDataType_t type; };
struct Operand { std::vector<int64_t> ext, str; std::vector<int32_t> mode; cudaDataType_t type; cutensorOperator_t op; };
struct Op { Operand a, b, c, d; int compute; };
struct Plan { Op op; };
struct Pref {};
int comp32, comp64;

template <class T, class H> T* get(H h) {
    void* p = (void*)h;
    if (!g_live.count(p)) { ++g_misuse; return nullptr; }
    return (T*)p;
}
template <class T, class H> void put(H* h, T* p) { g_live.insert(p); *h = (H)p; }
template <class T, class H> cutensorStatus_t drop(H h, const char* name) {
    // destructors cannot report: never injected as faults
    ++g_counts[name];
    T* p = get<T>(h);
    if (!p) return CUTENSOR_STATUS_INVALID_VALUE;
    g_live.erase((void*)p);
    delete p;
    return CUTENSOR_STATUS_SUCCESS;
}

template <class S> S conj_if(S x, bool c) {
    if constexpr (std::is_floating_point_v<S>) return x; else return c ? std::conj(x) : x;
}
template <class S> S lower(S x) {
    if constexpr (std::is_same_v<S, double>) return (double)(float)x;
    else if constexpr (std::is_same_v<S, std::complex<double>>) return S((float)x.real(), (float)x.imag());
    else return x;
}

template <class S>
cutensorStatus_t contract(const Op& op, const void* alpha_, const void* A_, const void* B_, const void* beta_, const void* C_, void* D_) {
    const S alpha = *(const S*)alpha_, beta = *(const S*)beta_;
    const S *A = (const S*)A_, *B = (const S*)B_, *C = (const S*)C_;
    S* D = (S*)D_;
    std::map<int32_t, int64_t> ext;
    auto add = [&](const Operand& o) {
        for (size_t i = 0; i < o.mode.size(); ++i) {
            if (ext.count(o.mode[i]) && ext[o.mode[i]] != o.ext[i]) return false;
            ext[o.mode[i]] = o.ext[i];
        }
        return true;
    };
    if (!add(op.a) || !add(op.b) || !add(op.c) || !add(op.d)) return CUTENSOR_STATUS_INVALID_VALUE;
    auto has = [](const Operand& o, int32_t m) { for (auto x : o.mode) if (x == m) return true; return false; };
    std::vector<int32_t> modes, inner;
    for (auto m : op.d.mode) modes.push_back(m);
    for (auto& kv : ext) if (!has(op.d, kv.first)) inner.push_back(kv.first);
    for (auto m : inner) if (!has(op.a, m) || !has(op.b, m)) return CUTENSOR_STATUS_NOT_SUPPORTED;
    auto strides = [&](const Operand& o, const std::vector<int32_t>& ms) {
        std::vector<int64_t> s;
        for (auto m : ms) { int64_t t = 0; for (size_t i = 0; i < o.mode.size(); ++i) if (o.mode[i] == m) t += o.str[i]; s.push_back(t); }
        return s;
    };
    auto oa = strides(op.a, modes), ob = strides(op.b, modes), oc = strides(op.c, modes), od = strides(op.d, modes);
    auto ia = strides(op.a, inner), ib = strides(op.b, inner);
    int64_t no = 1, ni = 1;
    for (auto m : modes) no *= ext[m];
    for (auto m : inner) ni *= ext[m];
    const bool ca = op.a.op == CUTENSOR_OP_CONJ, cb = op.b.op == CUTENSOR_OP_CONJ;
    const bool low = op.compute == 32 && sizeof(S) >= 8 && !std::is_same_v<S, std::complex<float>>;
    std::vector<S> out(no);
    std::vector<int64_t> offD(no);
    for (int64_t n = 0; n < no; ++n) {
        int64_t r = n, pa = 0, pb = 0, pc = 0, pd = 0;
        for (int j = (int)modes.size() - 1; j >= 0; --j) {
            int64_t i = r % ext[modes[j]]; r /= ext[modes[j]];
            pa += i * oa[j]; pb += i * ob[j]; pc += i * oc[j]; pd += i * od[j];
        }
        S sum = S(0);
        std::vector<int64_t> idx(inner.size(), 0);
        int64_t qa = pa, qb = pb;
        for (int64_t k = 0; k < ni; ++k) {
            S x = conj_if(A[qa], ca), y = conj_if(B[qb], cb);
            sum += low ? lower(lower(x) * lower(y)) : x * y;
            for (int j = (int)inner.size() - 1; j >= 0; --j) {
                qa += ia[j]; qb += ib[j];
                if (++idx[j] < ext[inner[j]]) break;
                qa -= idx[j] * ia[j]; qb -= idx[j] * ib[j]; idx[j] = 0;
            }
        }
        out[n] = alpha * sum;
        if (beta != S(0)) out[n] += beta * C[pc];
        offD[n] = pd;
    }
    for (int64_t n = 0; n < no; ++n) D[offD[n]] = out[n];
    return CUTENSOR_STATUS_SUCCESS;
}

template <class S> int cholesky(bool lowerpart, int n, S* A, int lda) {
    using R = decltype(std::abs(S(1)));
    auto at = [&](int i, int j) -> S& { return lowerpart ? A[i + (size_t)j * lda] : A[j + (size_t)i * lda]; };
    auto cj = [&](S x) { return conj_if(x, true); };
    // lower: A = L L^H.  upper: A = U^H U; with at() swapped the stored entry is the one of U^T
    for (int j = 0; j < n; ++j) {
        R d = std::real(at(j, j));
        for (int k = 0; k < j; ++k) d -= std::norm(at(j, k));
        if (!(d > 0)) return j + 1;
        d = std::sqrt(d);
        at(j, j) = S(d);
        for (int i = j + 1; i < n; ++i) {
            S s = at(i, j);
            for (int k = 0; k < j; ++k) s -= lowerpart ? at(i, k) * cj(at(j, k)) : cj(at(j, k)) * at(i, k);
            at(i, j) = s / d;
        }
    }
    return 0;
}

template <class S> void cholesky_back(bool lowerpart, int n, int nrhs, const S* A, int lda, S* B, int ldb) {
    auto L = [&](int i, int j) { return lowerpart ? A[i + (size_t)j * lda] : conj_if(A[j + (size_t)i * lda], true); };
    for (int c = 0; c < nrhs; ++c) {
        S* b = B + (size_t)c * ldb;
        for (int i = 0; i < n; ++i) {
            for (int k = 0; k < i; ++k) b[i] -= L(i, k) * b[k];
            b[i] /= L(i, i);
        }
        for (int i = n - 1; i >= 0; --i) {
            for (int k = i + 1; k < n; ++k) b[i] -= conj_if(L(k, i), true) * b[k];
            b[i] /= conj_if(L(i, i), true);
        }
    }
}
}  // namespace

extern "C" {
// control by the check
void stub_reset() { g_calls = 0; g_fail_at = -1; g_workspace = 0; g_min_workspace = 0; g_misuse = 0; g_counts.clear(); }
void stub_fail_at(long n) { g_calls = 0; g_fail_at = n; }
void stub_workspace(long dflt, long min) { g_workspace = dflt; g_min_workspace = min; }
long stub_calls() { return g_calls; }
long stub_misuse() { return g_misuse; }
long stub_live() { return (long)g_live.size(); }
long stub_count(const char* name) { return g_counts[name]; }

const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_32F = (cutensorComputeDescriptor_t)&comp32;
const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_64F = (cutensorComputeDescriptor_t)&comp64;

cutensorStatus_t cutensorCreate(cutensorHandle_t* h) { *h = (cutensorHandle_t)&comp32; return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorDestroy(cutensorHandle_t) { return CUTENSOR_STATUS_SUCCESS; }
const char* cutensorGetErrorString(const cutensorStatus_t s) { return s == CUTENSOR_STATUS_SUCCESS ? "success" : "failure"; }

cutensorStatus_t cutensorCreateTensorDescriptor(const cutensorHandle_t, cutensorTensorDescriptor_t* d, const uint32_t n,
        const int64_t ext[], const int64_t str[], cudaDataType_t type, uint32_t) {
    if (fails("cutensorCreateTensorDescriptor")) return CUTENSOR_STATUS_INTERNAL_ERROR;
    auto* p = new Desc;
    p->ext.assign(ext, ext + n);
    if (str) p->str.assign(str, str + n);
    else { int64_t s = 1; for (uint32_t i = 0; i < n; ++i) { p->str.push_back(s); s *= ext[i]; } }   // packed, first mode fastest
    p->type = type;
    for (auto e : p->ext) if (e <= 0) { delete p; return CUTENSOR_STATUS_INVALID_VALUE; }
    put(d, p);
    return CUTENSOR_STATUS_SUCCESS;
}
cutensorStatus_t cutensorDestroyTensorDescriptor(cutensorTensorDescriptor_t d) { return drop<Desc>(d, "cutensorDestroyTensorDescriptor"); }

cutensorStatus_t cutensorCreateContraction(const cutensorHandle_t, cutensorOperationDescriptor_t* out,
        const cutensorTensorDescriptor_t a, const int32_t ma[], cutensorOperator_t opa,
        const cutensorTensorDescriptor_t b, const int32_t mb[], cutensorOperator_t opb,
        const cutensorTensorDescriptor_t c, const int32_t mc[], cutensorOperator_t opc,
        const cutensorTensorDescriptor_t d, const int32_t md[], const cutensorComputeDescriptor_t comp) {
    if (fails("cutensorCreateContraction")) return CUTENSOR_STATUS_INTERNAL_ERROR;
    Desc* ds[4] = {get<Desc>(a), get<Desc>(b), get<Desc>(c), get<Desc>(d)};
    const int32_t* ms[4] = {ma, mb, mc, md};
    cutensorOperator_t ops[4] = {opa, opb, opc, CUTENSOR_OP_IDENTITY};
    auto* p = new Op;
    Operand* os[4] = {&p->a, &p->b, &p->c, &p->d};
    for (int i = 0; i < 4; ++i) {
        if (!ds[i]) { delete p; return CUTENSOR_STATUS_INVALID_VALUE; }
        *os[i] = Operand{ds[i]->ext, ds[i]->str, std::vector<int32_t>(ms[i], ms[i] + ds[i]->ext.size()), ds[i]->type, ops[i]};
    }
    p->compute = comp == CUTENSOR_COMPUTE_DESC_32F ? 32 : comp == CUTENSOR_COMPUTE_DESC_64F ? 64 : 0;
    const bool dbl = p->a.type == CUDA_R_64F || p->a.type == CUDA_C_64F;
    if (p->a.type != p->b.type || p->a.type != p->c.type || p->a.type != p->d.type || !p->compute || (p->compute == 64 && !dbl)
        || p->c.op != CUTENSOR_OP_IDENTITY || p->c.mode != p->d.mode || p->c.str != p->d.str) {
        delete p;
        return CUTENSOR_STATUS_NOT_SUPPORTED;
    }
    put(out, p);
    return CUTENSOR_STATUS_SUCCESS;
}
cutensorStatus_t cutensorDestroyOperationDescriptor(cutensorOperationDescriptor_t d) { return drop<Op>(d, "cutensorDestroyOperationDescriptor"); }

cutensorStatus_t cutensorCreatePlanPreference(const cutensorHandle_t, cutensorPlanPreference_t* p, cutensorAlgo_t, cutensorJitMode_t) {
    if (fails("cutensorCreatePlanPreference")) return CUTENSOR_STATUS_INTERNAL_ERROR;
    put(p, new Pref);
    return CUTENSOR_STATUS_SUCCESS;
}
cutensorStatus_t cutensorDestroyPlanPreference(cutensorPlanPreference_t p) { return drop<Pref>(p, "cutensorDestroyPlanPreference"); }

cutensorStatus_t cutensorEstimateWorkspaceSize(const cutensorHandle_t, const cutensorOperationDescriptor_t d, const cutensorPlanPreference_t,
        const cutensorWorksizePreference_t pref, uint64_t* size) {
    if (fails("cutensorEstimateWorkspaceSize")) return CUTENSOR_STATUS_INTERNAL_ERROR;
    if (!get<Op>(d)) return CUTENSOR_STATUS_INVALID_VALUE;
    *size = pref == CUTENSOR_WORKSPACE_MIN ? g_min_workspace : g_workspace;
    return CUTENSOR_STATUS_SUCCESS;
}
struct FullPlan { Op op; uint64_t limit; };
cutensorStatus_t cutensorCreatePlan(const cutensorHandle_t, cutensorPlan_t* out, const cutensorOperationDescriptor_t d,
        const cutensorPlanPreference_t pref, uint64_t limit) {
    if (fails("cutensorCreatePlan")) return CUTENSOR_STATUS_INTERNAL_ERROR;
    Op* op = get<Op>(d);
    if (!op || (pref && !get<Pref>(pref))) return CUTENSOR_STATUS_INVALID_VALUE;
    if (limit < (uint64_t)g_min_workspace) return CUTENSOR_STATUS_INSUFFICIENT_WORKSPACE;
    put(out, new FullPlan{*op, limit});
    return CUTENSOR_STATUS_SUCCESS;
}
cutensorStatus_t cutensorDestroyPlan(cutensorPlan_t p) { return drop<FullPlan>(p, "cutensorDestroyPlan"); }
cutensorStatus_t cutensorPlanGetAttribute(const cutensorHandle_t, const cutensorPlan_t p, cutensorPlanAttribute_t attr, void* buf, size_t n) {
    if (fails("cutensorPlanGetAttribute")) return CUTENSOR_STATUS_INTERNAL_ERROR;
    auto* plan = get<FullPlan>(p);
    if (!plan || attr != CUTENSOR_PLAN_REQUIRED_WORKSPACE || n != sizeof(uint64_t)) return CUTENSOR_STATUS_INVALID_VALUE;
    std::memcpy(buf, &plan->limit, sizeof(uint64_t));
    return CUTENSOR_STATUS_SUCCESS;
}

cutensorStatus_t cutensorContract(const cutensorHandle_t, const cutensorPlan_t p, const void* alpha, const void* A, const void* B,
        const void* beta, const void* C, void* D, void* ws, uint64_t wn, cudaStream_t) {
    if (fails("cutensorContract")) return CUTENSOR_STATUS_EXECUTION_FAILED;
    auto* plan = get<FullPlan>(p);
    if (!plan || !A || !B || !D || (plan->limit && (!ws || wn < plan->limit))) return CUTENSOR_STATUS_INVALID_VALUE;
    switch (plan->op.a.type) {
        case CUDA_R_32F: return contract<float>(plan->op, alpha, A, B, beta, C, D);
        case CUDA_R_64F: return contract<double>(plan->op, alpha, A, B, beta, C, D);
        case CUDA_C_32F: return contract<std::complex<float>>(plan->op, alpha, A, B, beta, C, D);
        case CUDA_C_64F: return contract<std::complex<double>>(plan->op, alpha, A, B, beta, C, D);
        default: return CUTENSOR_STATUS_NOT_SUPPORTED;
    }
}

cusolverStatus_t cusolverDnCreate(cusolverDnHandle_t* h) { *h = (cusolverDnHandle_t)&comp64; return CUSOLVER_STATUS_SUCCESS; }
cusolverStatus_t cusolverDnDestroy(cusolverDnHandle_t) { return CUSOLVER_STATUS_SUCCESS; }
cusolverStatus_t cusolverDnSetStream(cusolverDnHandle_t, cudaStream_t) { return fails("cusolverDnSetStream") ? CUSOLVER_STATUS_INTERNAL_ERROR : CUSOLVER_STATUS_SUCCESS; }

#define POTRF(X, T, S) \
cusolverStatus_t cusolverDn##X##potrf_bufferSize(cusolverDnHandle_t, cublasFillMode_t, int n, T*, int lda, int* lwork) { \
    if (fails("potrf_bufferSize")) return CUSOLVER_STATUS_INTERNAL_ERROR; \
    if (n < 0 || lda < n) return CUSOLVER_STATUS_INVALID_VALUE; \
    *lwork = n; return CUSOLVER_STATUS_SUCCESS; } \
cusolverStatus_t cusolverDn##X##potrf(cusolverDnHandle_t, cublasFillMode_t u, int n, T* A, int lda, T*, int lwork, int* info) { \
    if (fails("potrf")) return CUSOLVER_STATUS_INTERNAL_ERROR; \
    if (n < 0 || lda < n || lwork < n) return CUSOLVER_STATUS_INVALID_VALUE; \
    *info = cholesky<S>(u == CUBLAS_FILL_MODE_LOWER, n, (S*)A, lda); return CUSOLVER_STATUS_SUCCESS; } \
cusolverStatus_t cusolverDn##X##potrs(cusolverDnHandle_t, cublasFillMode_t u, int n, int nrhs, const T* A, int lda, T* B, int ldb, int* info) { \
    if (fails("potrs")) return CUSOLVER_STATUS_INTERNAL_ERROR; \
    if (n < 0 || lda < n || ldb < n) return CUSOLVER_STATUS_INVALID_VALUE; \
    cholesky_back<S>(u == CUBLAS_FILL_MODE_LOWER, n, nrhs, (const S*)A, lda, (S*)B, ldb); *info = 0; return CUSOLVER_STATUS_SUCCESS; }
POTRF(S, float, float)
POTRF(D, double, double)
POTRF(C, cuComplex, std::complex<float>)
POTRF(Z, cuDoubleComplex, std::complex<double>)
}

namespace c10::cuda {
CUDAStream getCurrentCUDAStream(DeviceIndex) {
    return CUDAStream(CUDAStream::UNCHECKED, Stream(Stream::DEFAULT, Device(DeviceType::CUDA, 0)));
}
cudaStream_t CUDAStream::stream() const { return nullptr; }
}
