typedef double __m128d; typedef float __m128;
int __vf_cvtss2si(float); int __vf_cvtsd2si(double);
static inline __m128 _mm_load_ss(const float*p){return *p;}
static inline __m128d _mm_load_sd(const double*p){return *p;}
static inline int _mm_cvtss_si32(__m128 x){return __vf_cvtss2si(x);}
static inline int _mm_cvtsd_si32(__m128d x){return __vf_cvtsd2si(x);}
