From f3284fb46f803caabe444d61fb6b92e614883d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 1/9] fix: linear converter reads before the input buffer when
 given a single frame

---
 src/src_linear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_linear.c b/src/src_linear.c
index 43a0fd4..bdbbde3 100644
--- a/src/src_linear.c
+++ b/src/src_linear.c
@@ -85,7 +85,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 	/* Calculate samples before first sample in input array. */
 	while (input_index < 1.0 && priv->out_gen < priv->out_count)
 	{
-		if (priv->in_used + state->channels * (1.0 + input_index) >= priv->in_count)
+		if (priv->in_used + state->channels * input_index >= priv->in_count)
 			break ;
 
 		if (priv->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > SRC_MIN_RATIO_DIFF)
-- 
2.43.0


From c70e174075ab73958b4449b3f0394cd5109e8e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 2/9] fix: reject NaN conversion ratios

---
 src/common.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.h b/src/common.h
index c5b7d90..6132e91 100644
--- a/src/common.h
+++ b/src/common.h
@@ -244,7 +244,8 @@ fmod_one (double x)
 
 static inline int
 is_bad_src_ratio (double ratio)
-{	return (ratio < (1.0 / SRC_MAX_RATIO) || ratio > (1.0 * SRC_MAX_RATIO)) ;
+{	/* Written so that NaN is rejected as well. */
+	return ! (ratio >= (1.0 / SRC_MAX_RATIO) && ratio <= (1.0 * SRC_MAX_RATIO)) ;
 } /* is_bad_src_ratio */
 
 
-- 
2.43.0


From 6786b530d95513bc825f72651b27f9f6eb37dbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 3/9] fix: sinc end-of-input handling reads before the filter
 buffer after a ratio drop

---
 src/src_sinc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 716c4a4..0a3d7a9 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1207,7 +1207,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 		** consumed and this is the last buffer.
 		*/
 
-		if (filter->b_len - filter->b_end < half_filter_chan_len + 5)
+		if (filter->b_len - filter->b_end < half_filter_chan_len + 5 && filter->b_current > half_filter_chan_len)
 		{	/* If necessary, move data down to the start of the buffer. */
 			len = filter->b_end - filter->b_current ;
 			memmove (filter->buffer, filter->buffer + filter->b_current - half_filter_chan_len,
-- 
2.43.0


From 2c26cee2f3b40350b968cd3e4913103b0457c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 4/9] fix: keep the sinc end-of-input padding a whole number of
 frames

---
 src/src_sinc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 0a3d7a9..e215c6e 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1222,6 +1222,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 
 		if (len < 0 || filter->b_end + len > filter->b_len)
 			len = filter->b_len - filter->b_end ;
+		len -= (len % channels) ;
 
 		memset (filter->buffer + filter->b_end, 0, len * sizeof (filter->buffer [0])) ;
 		filter->b_end += len ;
-- 
2.43.0


From fe1fb96c2651bf3587a96140cd57d1dd2fb7c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 5/9] fix: do not truncate the sinc input sample count to int

---
 src/src_sinc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index e215c6e..dec6cdd 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1189,7 +1189,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 		len = MAX (filter->b_len - filter->b_current - half_filter_chan_len, 0) ;
 		} ;
 
-	len = MIN ((int) (filter->in_count - filter->in_used), len) ;
+	len = (int) MIN (filter->in_count - filter->in_used, (long) len) ;
 	len -= (len % channels) ;
 
 	if (len < 0 || filter->b_end + len > filter->b_len)
-- 
2.43.0


From 683dd2627c6f067f462a8bb91168516790d4a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 6/9] fix: creating a converter with a non-positive channel
 count must fail cleanly

---
 src/samplerate.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 6a51f27..2978d88 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -491,6 +491,13 @@ psrc_set_converter (int converter_type, int channels, int *error)
 {
 	SRC_ERROR temp_error;
 	SRC_STATE *state ;
+
+	if (channels < 1)
+	{	if (error)
+			*error = SRC_ERR_BAD_CHANNEL_COUNT ;
+		return NULL ;
+		} ;
+
 	switch (converter_type)
 	{
 #ifdef ENABLE_SINC_BEST_CONVERTER
-- 
2.43.0


From 55dfe179968e62d7bd0e861c1b2304644447e5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 7/9] fix: int overflow in the zoh and linear input counters
 for huge channel counts

---
 src/src_linear.c | 4 ++--
 src/src_zoh.c    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/src_linear.c b/src/src_linear.c
index bdbbde3..81212e5 100644
--- a/src/src_linear.c
+++ b/src/src_linear.c
@@ -102,7 +102,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 		} ;
 
 	rem = fmod_one (input_index) ;
-	priv->in_used += state->channels * psf_lrint (input_index - rem) ;
+	priv->in_used += (long) state->channels * psf_lrint (input_index - rem) ;
 	input_index = rem ;
 
 	/* Main processing loop. */
@@ -128,7 +128,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 		input_index += 1.0 / src_ratio ;
 		rem = fmod_one (input_index) ;
 
-		priv->in_used += state->channels * psf_lrint (input_index - rem) ;
+		priv->in_used += (long) state->channels * psf_lrint (input_index - rem) ;
 		input_index = rem ;
 		} ;
 
diff --git a/src/src_zoh.c b/src/src_zoh.c
index 41ba79a..3991ca0 100644
--- a/src/src_zoh.c
+++ b/src/src_zoh.c
@@ -99,7 +99,7 @@ zoh_vari_process (SRC_STATE *state, SRC_DATA *data)
 		} ;
 
 	rem = fmod_one (input_index) ;
-	priv->in_used += state->channels * psf_lrint (input_index - rem) ;
+	priv->in_used += (long) state->channels * psf_lrint (input_index - rem) ;
 	input_index = rem ;
 
 	/* Main processing loop. */
@@ -117,7 +117,7 @@ zoh_vari_process (SRC_STATE *state, SRC_DATA *data)
 		input_index += 1.0 / src_ratio ;
 		rem = fmod_one (input_index) ;
 
-		priv->in_used += state->channels * psf_lrint (input_index - rem) ;
+		priv->in_used += (long) state->channels * psf_lrint (input_index - rem) ;
 		input_index = rem ;
 		} ;
 
-- 
2.43.0


From d765b5acc526cf972ae521f4303bcdc01fb71ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 8/9] fix: src_callback_read hangs when data follows the end of
 input

---
 src/samplerate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 2978d88..497461d 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -221,6 +221,10 @@ src_callback_read (SRC_STATE *state, double src_ratio, long frames, float *data)
 
 		if (src_data.end_of_input == SRC_TRUE && src_data.output_frames_gen == 0)
 			break ;
+
+		/* The converter has been told about the end of input and takes no more data. */
+		if (src_data.input_frames > 0 && src_data.input_frames_used == 0 && src_data.output_frames_gen == 0)
+			break ;
 		} ;
 
 	state->saved_data = src_data.data_in ;
-- 
2.43.0


From f61549f9923200723c098be327566599045f646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 9/9] fix: src_simple dereferences a NULL SRC_DATA pointer

---
 src/samplerate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 497461d..060b3ca 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -416,6 +416,9 @@ src_simple (SRC_DATA *src_data, int converter, int channels)
 {	SRC_STATE	*src_state ;
 	int 		error ;
 
+	if (src_data == NULL)
+		return SRC_ERR_BAD_DATA ;
+
 	if ((src_state = src_new (converter, channels, &error)) == NULL)
 		return error ;
 
-- 
2.43.0

