From 41d83e9eb364d392f8e21ac3802d947c46fb6980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:00 +0000
Subject: [PATCH 01/40] fix: lower_bound disconnected gradient returned the
 input instead of the masked upstream gradient

---
 neuralcompression/functional/_lower_bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_lower_bound.py b/neuralcompression/functional/_lower_bound.py
index be17e47..945f5c5 100644
--- a/neuralcompression/functional/_lower_bound.py
+++ b/neuralcompression/functional/_lower_bound.py
@@ -28,7 +28,7 @@ class _LowerBound(Function):
         x, bound, gradient = ctx.saved_tensors
 
         if int(gradient) == _LowerBoundGradient.disconnected:
-            return x, None, None
+            return (x >= bound) * y, None, None
 
         if int(gradient) == _LowerBoundGradient.identity:
             return y, None, None
-- 
2.43.0


From 6939fd1dda068ec15e9052d2802beec05fcfc168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:00 +0000
Subject: [PATCH 02/40] fix: lower_bound accepts the documented float bound

---
 neuralcompression/functional/_lower_bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_lower_bound.py b/neuralcompression/functional/_lower_bound.py
index 945f5c5..3bbe4d9 100644
--- a/neuralcompression/functional/_lower_bound.py
+++ b/neuralcompression/functional/_lower_bound.py
@@ -39,7 +39,7 @@ class _LowerBound(Function):
     def forward(ctx, *args):
         x, bound, gradient = args
 
-        bound = bound.to(x.dtype)
+        bound = torch.as_tensor(bound, device=x.device).to(x.dtype)
 
         ctx.save_for_backward(
             x,
-- 
2.43.0


From 15cfb03c582497370d3c39ed233f6ce02482a301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:02 +0000
Subject: [PATCH 03/40] fix: log_cdf of a Uniform ignored its bounds

---
 neuralcompression/functional/_log_cdf.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/neuralcompression/functional/_log_cdf.py b/neuralcompression/functional/_log_cdf.py
index c1c80e5..cfc5b39 100644
--- a/neuralcompression/functional/_log_cdf.py
+++ b/neuralcompression/functional/_log_cdf.py
@@ -5,7 +5,7 @@
 
 import torch
 from torch import Tensor
-from torch.distributions import Distribution, Normal, Uniform
+from torch.distributions import Distribution, Normal
 
 from ._log_ndtr import log_ndtr
 
@@ -30,7 +30,4 @@ def log_cdf(
 
         return log_ndtr(standardized)
 
-    if isinstance(distribution, Uniform):
-        return torch.log(x)
-
     return torch.log(distribution.cdf(x))
-- 
2.43.0


From 028df5be3ddc548546acd0ab84ffe2a409857fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:02 +0000
Subject: [PATCH 04/40] fix: log_survival_function computed log(1 + cdf(-x))
 for non-normal distributions

---
 neuralcompression/functional/_log_survival_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_log_survival_function.py b/neuralcompression/functional/_log_survival_function.py
index bdb76fe..9a037fb 100644
--- a/neuralcompression/functional/_log_survival_function.py
+++ b/neuralcompression/functional/_log_survival_function.py
@@ -30,4 +30,4 @@ def log_survival_function(
 
         return log_ndtr(-standardized)
 
-    return torch.log1p(distribution.cdf(-x))
+    return torch.log1p(-distribution.cdf(x))
-- 
2.43.0


From eac28b4d77fe33cde1ad42ac084a2479c18f192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:02 +0000
Subject: [PATCH 05/40] fix: log_ndtr lower-tail series used the double
 factorials one term late

---
 neuralcompression/functional/_log_ndtr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_log_ndtr.py b/neuralcompression/functional/_log_ndtr.py
index 57a6d57..5993cda 100644
--- a/neuralcompression/functional/_log_ndtr.py
+++ b/neuralcompression/functional/_log_ndtr.py
@@ -19,9 +19,9 @@ def _log_ndtr_asymptotic_series(x: Tensor, series_order: int = 3) -> Tensor:
     multiplier = -1
 
     for n in range(1, series_order + 1):
+        double_fac *= 2 * n - 1
         t2.add_(multiplier * double_fac / value_even_power)
         value_even_power.mul_(x**2)
-        double_fac *= 2 * n - 1
         multiplier *= -1
 
     return t1 + torch.log1p(t2)
-- 
2.43.0


From 660a2f224b75878b5a5209a08f2a3b09fc5fb74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:40 +0000
Subject: [PATCH 06/40] fix: UniformNoise passed the base's batch and event
 shapes in the wrong order

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 028a0b2..ce2871b 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -44,8 +44,8 @@ class UniformNoise(Distribution):
 
     def __init__(self, distribution: Distribution):
         super(UniformNoise, self).__init__(
-            distribution.event_shape,
             distribution.batch_shape,
+            distribution.event_shape,
         )
 
         self._distribution = distribution
-- 
2.43.0


From a6a93516ed6c3165e3a36458833eed824f2f8031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:40 +0000
Subject: [PATCH 07/40] fix: UniformNoise.rsample drew one noise value per
 sample instead of one per component

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index ce2871b..82fd55e 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -134,7 +134,7 @@ class UniformNoise(Distribution):
 
     def rsample(self, sample_shape: Size = Size()):
         a = self._distribution.sample(sample_shape)
-        b = self._uniform_distribution.sample(sample_shape)
+        b = self._uniform_distribution.sample(a.shape)
 
         return a + b
 
-- 
2.43.0


From 347a3f2c795cb86c47901ed914af92ea2df82ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:40 +0000
Subject: [PATCH 08/40] fix: UniformNoise.expand dropped the uniform noise

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 82fd55e..3788316 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -82,7 +82,7 @@ class UniformNoise(Distribution):
         return self._distribution.enumerate_support(expand)
 
     def expand(self, batch_shape, _instance=None) -> Distribution:
-        return self._distribution.expand(batch_shape)
+        return UniformNoise(self._distribution.expand(batch_shape))
 
     def icdf(self, value: Tensor) -> Tensor:
         return self._distribution.icdf(value)
-- 
2.43.0


From 9b5c129a0fd0c924aa6ce2c9a630c01ae369bff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:04 +0000
Subject: [PATCH 09/40] fix: information_content per batch element rejected
 non-contiguous probabilities

---
 neuralcompression/functional/_information_content.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_information_content.py b/neuralcompression/functional/_information_content.py
index f9dfc65..cd1544b 100644
--- a/neuralcompression/functional/_information_content.py
+++ b/neuralcompression/functional/_information_content.py
@@ -43,7 +43,9 @@ def information_content(
     if reduction == "sum":
         natural = torch.sum(torch.log(probabilities))
     elif reduction == "batch_el":
-        natural = torch.log(probabilities).view(probabilities.shape[0], -1).sum(dim=-1)
+        natural = (
+            torch.log(probabilities).reshape(probabilities.shape[0], -1).sum(dim=-1)
+        )
     elif reduction == "none":
         natural = torch.log(probabilities)
 
-- 
2.43.0


From 3831f0721f726f6b0f9169563f204b8ed1c2f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:04 +0000
Subject: [PATCH 10/40] fix: calc_psnr_numpy wrapped around on unsigned integer
 images

---
 neuralcompression/metrics/_calc_psnr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/metrics/_calc_psnr.py b/neuralcompression/metrics/_calc_psnr.py
index d7ef5ec..6970862 100644
--- a/neuralcompression/metrics/_calc_psnr.py
+++ b/neuralcompression/metrics/_calc_psnr.py
@@ -40,5 +40,7 @@ def calc_psnr_numpy(
     Returns:
         PSNR between image and reference.
     """
-    mse = np.mean((image - reference) ** 2)
+    # unsigned integer images would wrap around in the subtraction
+    dtype = np.result_type(image, reference, np.float32)
+    mse = np.mean(np.subtract(image, reference, dtype=dtype) ** 2)
     return 20.0 * math.log10(data_range) - 10.0 * np.log10(mse)
-- 
2.43.0


From 7fd7e3c4b791ca405b5aa83dcdff1208366a795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:29 +0000
Subject: [PATCH 11/40] fix: estimate_tails never stopped when the gradient
 vanished at the solution

---
 neuralcompression/functional/_estimate_tails.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_estimate_tails.py b/neuralcompression/functional/_estimate_tails.py
index a727294..d4925d6 100644
--- a/neuralcompression/functional/_estimate_tails.py
+++ b/neuralcompression/functional/_estimate_tails.py
@@ -69,7 +69,7 @@ def estimate_tails(
 
             tails -= (1e-2 * mean / (torch.sqrt(variance) + eps)).to(device)
 
-        condition = torch.logical_or(counts > 0, gradient.cpu() * tails.cpu() > 0)
+        condition = torch.logical_or(counts > 0, gradient.cpu() * tails.cpu() >= 0)
 
         counts = torch.where(condition, counts + 1, counts)
 
-- 
2.43.0


From 116835d3a8db3e1fe095fd278831560675269ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:16 +0000
Subject: [PATCH 12/40] fix: QBottleneck.reset_hits did not reset the codebook
 hit counters

---
 neuralcompression/layers/_q_bottleneck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/layers/_q_bottleneck.py b/neuralcompression/layers/_q_bottleneck.py
index 6b25ad3..734b51f 100644
--- a/neuralcompression/layers/_q_bottleneck.py
+++ b/neuralcompression/layers/_q_bottleneck.py
@@ -91,8 +91,8 @@ class QBottleneck(nn.Module):
         self.register_buffer("percentage_hits", torch.zeros(num_codebooks))
 
     def reset_hits(self):
-        for codebook_hits in self.named_buffers(prefix="codebook_hits"):
-            codebook_hits *= 0
+        for level in range(len(self.codebooks)):
+            getattr(self, f"codebook_hits_{level}").zero_()
 
     def update_metrics(self):
         assert len(self.percentage_hits) == len(self.max_hits) == len(self.perplexities)
-- 
2.43.0


From 0ca9bf95c1751603516d253100ddaf2c47061cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:13 +0000
Subject: [PATCH 13/40] fix: ContinuousEntropy.quantize raised a TypeError for
 floating-point input

---
 neuralcompression/layers/_continuous_entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index f292303..3e3cdbc 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -299,7 +299,7 @@ class ContinuousEntropy(Module):
 
         outputs = torch.round(outputs)
 
-        return IntTensor(outputs)
+        return outputs.to(torch.int32)
 
     def _update(self):
         quantization_offset = ncF.quantization_offset(self.prior)
-- 
2.43.0


From ff6bf222fe3b7d67160054b20724ef7843db2df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:13 +0000
Subject: [PATCH 14/40] fix: ContinuousEntropy.prior was unavailable unless the
 layer was compressible

---
 neuralcompression/layers/_continuous_entropy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index 3e3cdbc..2edcbb3 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -97,6 +97,8 @@ class ContinuousEntropy(Module):
 
         self._range_coder_precision = range_coder_precision
 
+        self._prior = prior
+
         if prior is None:
             if prior_shape is None or prior_dtype is None:
                 error_message = r"""either `prior` or both `prior_dtype` and
@@ -128,8 +130,6 @@ class ContinuousEntropy(Module):
                 raise ValueError(error_message)
 
             if prior is not None:
-                self._prior = prior
-
                 cdfs, cdf_sizes, cdf_offsets = self._update()
             elif maximum_cdf_size is not None:
                 if self.stateless:
-- 
2.43.0


From c5179e15d77d4494e631f445c3b16b101dee9d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:36 +0000
Subject: [PATCH 15/40] fix: ContinuousEntropy built its range coding tables
 along the wrong axis and without the quantization offset

---
 neuralcompression/layers/_continuous_entropy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index 2edcbb3..ccb79af 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -323,7 +323,6 @@ class ContinuousEntropy(Module):
         maximum = torch.clamp_min(maximum, 0)
 
         pmf_start = minimum.to(self.prior_dtype) + quantization_offset
-        pmf_start = pmf_start.to(torch.int32)
 
         pmf_sizes = maximum - minimum + 1
 
@@ -339,13 +338,17 @@ class ContinuousEntropy(Module):
         else:
             pmfs = torch.exp(self.prior.log_prob(samples))
 
+        # one row per distribution
+        pmfs = torch.broadcast_to(pmfs, pmfs.shape[:1] + self.context_shape)
+        pmfs = pmfs.flatten(start_dim=1).t()
+
         pmf_sizes = torch.broadcast_to(pmf_sizes, self.context_shape)
-        pmf_sizes = pmf_sizes.squeeze()
+        pmf_sizes = pmf_sizes.flatten()
 
         cdf_sizes = pmf_sizes + 2
 
         cdf_offsets = torch.broadcast_to(minimum, self.context_shape)
-        cdf_offsets = cdf_offsets.squeeze()
+        cdf_offsets = cdf_offsets.flatten()
 
         cdfs = torch.zeros(
             (len(pmf_sizes), int(maximum_pmf_size) + 2),
-- 
2.43.0


From de888fcf82c61b57703f2b303c0e5d6ce220dab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:18 +0000
Subject: [PATCH 16/40] fix: KernelInceptionDistance ignored its subset and
 kernel parameters

---
 neuralcompression/metrics/_kid.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neuralcompression/metrics/_kid.py b/neuralcompression/metrics/_kid.py
index 1ea8fce..3cca9e2 100644
--- a/neuralcompression/metrics/_kid.py
+++ b/neuralcompression/metrics/_kid.py
@@ -87,6 +87,11 @@ class KernelInceptionDistance(Metric):
         output = kid_features_to_metric(
             torch.cat(self.real_features).to(torch.float64),
             torch.cat(self.fake_features).to(torch.float64),
+            kid_subsets=self.subsets,
+            kid_subset_size=self.subset_size,
+            kid_kernel_poly_degree=self.degree,
+            kid_kernel_poly_gamma=self.gamma,
+            kid_kernel_poly_coef0=self.coef,
         )
         return (
             torch.tensor(output["kernel_inception_distance_mean"]),
-- 
2.43.0


From 3422e091b155ba73cf933bd5b922b8e09f3fbd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:09 +0000
Subject: [PATCH 17/40] fix: HiFiC quantized hyper-latent likelihoods were
 computed from the noisy training latent

In training mode the quantised likelihoods were evaluated on the rounded
noise-perturbed hyper latent instead of the rounded hyper latent.
---
 neuralcompression/models/_hific_autoencoder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neuralcompression/models/_hific_autoencoder.py b/neuralcompression/models/_hific_autoencoder.py
index 7097042..07b79f8 100644
--- a/neuralcompression/models/_hific_autoencoder.py
+++ b/neuralcompression/models/_hific_autoencoder.py
@@ -237,11 +237,11 @@ class HiFiCAutoencoder(HyperpriorAutoencoderBase):
         latent = self.encoder(image)
 
         # bottleneck processing
-        hyper_latent = self.hyper_analysis(latent)
-        hyper_latent, hyper_likelihoods = self.hyper_bottleneck(hyper_latent)
+        analyzed_hyper_latent = self.hyper_analysis(latent)
+        hyper_latent, hyper_likelihoods = self.hyper_bottleneck(analyzed_hyper_latent)
         with torch.no_grad():
             _, quantized_hyper_latent_likelihoods = self.hyper_bottleneck(
-                hyper_latent, training=False
+                analyzed_hyper_latent, training=False
             )
         means = self.hyper_synthesis_mean(hyper_latent)
         scales = self.hyper_synthesis_scale(hyper_latent)
-- 
2.43.0


From f4fa4e96ab5710da59747b94a19e6b199727dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:10 +0000
Subject: [PATCH 18/40] fix: DVC.decompress asked for a latent one too small
 for odd sizes

The encoder's strided convolutions round the size up, the decoder rounded
it down.
---
 neuralcompression/models/deep_video_compression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/models/deep_video_compression.py b/neuralcompression/models/deep_video_compression.py
index afb61e2..6f1d35b 100644
--- a/neuralcompression/models/deep_video_compression.py
+++ b/neuralcompression/models/deep_video_compression.py
@@ -225,8 +225,8 @@ class DVC(nn.Module):
                 transition information.
         """
         flow_latent_size = (
-            compressed_pframe.flow_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.flow_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-1] + 1) // 2,
         )
         flow_latent = self.motion_entropy_bottleneck.decompress(
             compressed_pframe.compressed_flow, flow_latent_size
@@ -241,8 +241,8 @@ class DVC(nn.Module):
 
         # decode residual
         residual_latent_size = (
-            compressed_pframe.residual_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.residual_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-1] + 1) // 2,
         )
         residual_latent = self.residual_entropy_bottleneck.decompress(
             compressed_pframe.compressed_residual, residual_latent_size
-- 
2.43.0


From 785a1e428a1535377de77621b17e68d3b0256fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:10 +0000
Subject: [PATCH 19/40] fix: U-Net discriminator shortcuts saw the activated
 input of their block

The first activation of each block worked in place on the tensor the
shortcut reads afterwards.
---
 neuralcompression/models/_unet_discriminator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/models/_unet_discriminator.py b/neuralcompression/models/_unet_discriminator.py
index 6b07511..2cb64eb 100644
--- a/neuralcompression/models/_unet_discriminator.py
+++ b/neuralcompression/models/_unet_discriminator.py
@@ -88,7 +88,7 @@ class _UnetLevel(nn.Module):
 
         self.left_block = nn.Sequential(
             nn.Identity() if top else norm_layer(in_planes),
-            nn.Identity() if top else nn.LeakyReLU(negative_slope=0.2, inplace=True),
+            nn.Identity() if top else nn.LeakyReLU(negative_slope=0.2),
             conv_norm(
                 _conv(in_planes=in_planes, out_planes=down_planes, bias=use_bias)
             ),
@@ -123,7 +123,7 @@ class _UnetLevel(nn.Module):
         else:
             self.right_block = nn.Sequential(
                 norm_layer(down_planes),
-                nn.LeakyReLU(negative_slope=0.2, inplace=True),
+                nn.LeakyReLU(negative_slope=0.2),
                 nn.Upsample(scale_factor=2),
                 conv_norm(
                     _conv(in_planes=down_planes, out_planes=out_planes, bias=use_bias)
-- 
2.43.0


From e76e6577da465ec418e987ab8e1e00290c78084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:10 +0000
Subject: [PATCH 20/40] fix: U-Net discriminator with
 output_downsampling_factor=2 did not clip its top level

---
 neuralcompression/models/_unet_discriminator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/models/_unet_discriminator.py b/neuralcompression/models/_unet_discriminator.py
index 2cb64eb..ff72565 100644
--- a/neuralcompression/models/_unet_discriminator.py
+++ b/neuralcompression/models/_unet_discriminator.py
@@ -234,7 +234,7 @@ class UnetDiscriminator(Discriminator):
             out_planes=64,
             child=model,
             top=True,
-            clip_upsample=clip_upsample,
+            clip_upsample=num_downsamples > 0,
             norm_type=norm_type,
         )
 
-- 
2.43.0


From 47a3d8137ee743134a9212f251a250ed17736fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:21 +0000
Subject: [PATCH 21/40] fix: VCTEntropyModel did not raise for a short history
 with an unsupported context length

---
 projects/torch_vct/neural/entropy_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/entropy_model.py b/projects/torch_vct/neural/entropy_model.py
index e33a5f9..f7e2f30 100644
--- a/projects/torch_vct/neural/entropy_model.py
+++ b/projects/torch_vct/neural/entropy_model.py
@@ -327,7 +327,7 @@ class VCTEntropyModel(nn.Module):
                     else [encoded_seqs[0]] * 2 + [encoded_seqs[1]]
                 )
             else:
-                ValueError(f"Unsupported context_len={self.context_len}")
+                raise ValueError(f"Unsupported context_len={self.context_len}")
         return encoded_seqs
 
     def forward(
-- 
2.43.0


From e07cbc09ccc5d2345431b016f61a95e3827649a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:21 +0000
Subject: [PATCH 22/40] fix: VCTEntropyModel.compress without decoding returned
 a latent the decoder does not produce

The coder quantises around the rounded mean, which differs from rounding
the latent itself at half integers.
---
 projects/torch_vct/neural/entropy_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/entropy_model.py b/projects/torch_vct/neural/entropy_model.py
index f7e2f30..5b6543b 100644
--- a/projects/torch_vct/neural/entropy_model.py
+++ b/projects/torch_vct/neural/entropy_model.py
@@ -506,7 +506,9 @@ class VCTEntropyModel(nn.Module):
         # decoding:
         if not run_decode:
             # For performance, since coding is lossless, real decode can be skipped
-            decoded = torch.round(latent_unquantized)
+            decoded = self.patcher.unpatch(
+                x_patched=(quantized, (n_h, n_w)), crop=(H, W), channels_last=True
+            )
         else:
             use_output_from_encode = True
             decoded = self._decode(
-- 
2.43.0


From 2f4e5074e95fa0669a7d617b693fc8068d6b516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:21 +0000
Subject: [PATCH 23/40] fix: ConvGDNSynthesis reported 192 compression channels
 whatever it was built with

---
 projects/torch_vct/neural/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/transforms.py b/projects/torch_vct/neural/transforms.py
index a9c409a..b62b2b7 100644
--- a/projects/torch_vct/neural/transforms.py
+++ b/projects/torch_vct/neural/transforms.py
@@ -73,7 +73,7 @@ class ConvGDNSynthesis(nn.Module):
         """
 
         super().__init__()
-        self._compression_channels = 192
+        self._compression_channels = compression_channels
 
         self.transforms = nn.Sequential(
             make_deconv(
-- 
2.43.0


From 6e2a2e5994135080d640aa174d461c719a3b0183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:21 +0000
Subject: [PATCH 24/40] fix: VCTPipeline did not pass its context length to the
 entropy model

---
 projects/torch_vct/model_pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/model_pipeline.py b/projects/torch_vct/model_pipeline.py
index a280ef9..2a9fdc8 100644
--- a/projects/torch_vct/model_pipeline.py
+++ b/projects/torch_vct/model_pipeline.py
@@ -181,7 +181,9 @@ class VCTPipeline(nn.Module):
         ), "Mismatched compression_channels"
 
         # Entropy model
-        self.entropy_model = VCTEntropyModel(num_channels=compression_channels)
+        self.entropy_model = VCTEntropyModel(
+            num_channels=compression_channels, context_len=context_len
+        )
         self._temporal_pad_token_maker = PerChannelWeight(
             num_channels=compression_channels
         )
-- 
2.43.0


From 9ff2e60dcaf6139810ce5cd64065ed1beb7c9580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:35 +0000
Subject: [PATCH 25/40] fix: memoize could return the result of a freed tensor
 with the same id

---
 projects/torch_vct/utils/memoize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/torch_vct/utils/memoize.py b/projects/torch_vct/utils/memoize.py
index a2cf585..437aa49 100644
--- a/projects/torch_vct/utils/memoize.py
+++ b/projects/torch_vct/utils/memoize.py
@@ -137,11 +137,13 @@ def memoize(f):
         if key in result_cache:
             assert _expect_cache_hit in [True, None]
             hit_counter[key] += 1
-            result = result_cache[key]
+            result, *_ = result_cache[key]
         else:
             assert _expect_cache_hit in [False, None]
             result = f(*args, **kwargs)
-            result_cache[key] = result
+            # tensors are identified by their id: keep the arguments alive, so that
+            # no other tensor can get the same id while the result is cached
+            result_cache[key] = (result, args, kwargs)
         return result
 
     # for inspection/testing:
-- 
2.43.0


From 7346256713aacd6d7ed26d30f1fdcd38bdc35da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:03 +0000
Subject: [PATCH 26/40] fix: arithmetic coder lost its last byte when the code
 filled the buffer exactly

With idx == len(buffer) the final, partial byte is written out of range and
dropped, but only idx > len(buffer) was reported as an overrun.
---
 projects/jax_entropy_coders/jax_arithmetic_coder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/jax_entropy_coders/jax_arithmetic_coder.py b/projects/jax_entropy_coders/jax_arithmetic_coder.py
index 3c712e4..a760d4e 100644
--- a/projects/jax_entropy_coders/jax_arithmetic_coder.py
+++ b/projects/jax_entropy_coders/jax_arithmetic_coder.py
@@ -579,7 +579,7 @@ def encode(
 
     bits, num_bytes = map_fun(messages, init_cdf_states)
 
-    if any([i > len(b) for b, i in zip(bits, num_bytes)]):
+    if any([i >= len(b) for b, i in zip(bits, num_bytes)]):
         raise RuntimeError("Message buffer overrun - try increasing buffer_oversize.")
 
     bits = [bytes(b[: i + 1]) for b, i in zip(bits, num_bytes)]
-- 
2.43.0


From c58f42cb589afa4eefac13129b3241dd14e5f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:23 +0000
Subject: [PATCH 27/40] fix: CLIC2020Video took frames and videos in directory
 order

---
 neuralcompression/data/_clic_2020_video.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 23302e6..46936ae 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -86,7 +86,7 @@ class CLIC2020Video(IterableDataset):
         if download:
             self.download()
 
-        self._video_paths = [Path(path.name) for path in self._root.glob("*")]
+        self._video_paths = sorted(Path(path.name) for path in self._root.glob("*"))
 
         self._video_sampler = video_sampler(self._video_paths)
 
@@ -98,9 +98,9 @@ class CLIC2020Video(IterableDataset):
         if self._current_video:
             video, index = self._current_video
         else:
-            video_frame_paths = [
-                *self._root.joinpath(self._video_paths[index]).glob("*_y.png")
-            ]
+            video_frame_paths = sorted(
+                self._root.joinpath(self._video_paths[index]).glob("*_y.png")
+            )
 
             video = FrameVideo.from_frame_paths(
                 video_frame_paths,
-- 
2.43.0


From ff4bb0988414792f9a68cd46e2ce50128a52f0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:23 +0000
Subject: [PATCH 28/40] fix: CLIC2020Video dropped a video for every further
 clip of the current one

---
 neuralcompression/data/_clic_2020_video.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 46936ae..7b2a043 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -155,7 +155,10 @@ class CLIC2020Video(IterableDataset):
                 ),
             )
 
-        index = next(self._video_sampler_iterator)
+        if self._current_video:
+            _, index = self._current_video
+        else:
+            index = next(self._video_sampler_iterator)
 
         return self[index]
 
-- 
2.43.0


From 82657de83fb6caf1141797387f51db422eb239b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:24 +0000
Subject: [PATCH 29/40] fix: CLIC2020Video was empty from the second pass on

---
 neuralcompression/data/_clic_2020_video.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 7b2a043..d45b61d 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -145,6 +145,10 @@ class CLIC2020Video(IterableDataset):
         return sample
 
     def __iter__(self):
+        self._video_sampler_iterator = None
+        self._current_video = None
+        self._next_clip_start_sec = 0.0
+
         return self
 
     def __next__(self) -> Dict:
-- 
2.43.0


From d1c75a78a7b818adac0f2d9c6c30331cc0a0faab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:24 +0000
Subject: [PATCH 30/40] fix: Kodak force_download failed on an existing
 directory

---
 neuralcompression/data/_kodak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/data/_kodak.py b/neuralcompression/data/_kodak.py
index 5c7a403..f83157e 100644
--- a/neuralcompression/data/_kodak.py
+++ b/neuralcompression/data/_kodak.py
@@ -83,7 +83,7 @@ class Kodak(Dataset):
                 " with dataset download anyways pass force_download=True"
             )
 
-        self.root.mkdir()
+        self.root.mkdir(exist_ok=force)
 
         for im_num in tqdm(range(1, num_imgs + 1), desc="Downloading Kodak images"):
             img_name = "kodim{:02}.png".format(im_num)
-- 
2.43.0


From f10be15a5bc99ae8edb072e44e1486c53962f7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:24 +0000
Subject: [PATCH 31/40] fix: Vimeo90kSeptuplet image mode crashed without a
 transform

---
 neuralcompression/data/_vimeo_90k_septuplet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/data/_vimeo_90k_septuplet.py b/neuralcompression/data/_vimeo_90k_septuplet.py
index 403ff13..d99a849 100644
--- a/neuralcompression/data/_vimeo_90k_septuplet.py
+++ b/neuralcompression/data/_vimeo_90k_septuplet.py
@@ -109,8 +109,10 @@ class Vimeo90kSeptuplet(Dataset):
             return len(self.folder_list) * self.frames_per_group
 
     def load_image(self, septuplet: Path, frame_number: int) -> Tensor:
-        img_path = default_loader(str(septuplet / f"im{frame_number}.png"))
-        img = self.pil_transform(img_path)
+        img = default_loader(str(septuplet / f"im{frame_number}.png"))
+        if self.pil_transform is None:
+            return img
+        img = self.pil_transform(img)
         if not isinstance(img, Tensor):
             raise RuntimeError(
                 "Tensor not returned from pil_transform. "
-- 
2.43.0


From f6525d15d33158cd273483e59a9b16866c661863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:38 +0000
Subject: [PATCH 32/40] fix: bits-back codec saves its extra bits under the
 name it restores

---
 projects/bits_back_diffusion/bits_back_diffusion/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/codec.py b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
index 55787a2..becd85a 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/codec.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
@@ -654,7 +654,7 @@ class BitsBackCodec:
         return {
             "flat_message": self.flat_message,
             "data_count": self.data_count,
-            "extr_bytes": self.extra_bytes,
+            "extra_bytes": self.extra_bytes,
             "push_bytes": self.push_bytes,
             "pop_bytes": self.pop_bytes,
             "initial_bytes": self.initial_bytes,
-- 
2.43.0


From 35a830c94e7f146b02fe36bd6e1557b14b9e3f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:38 +0000
Subject: [PATCH 33/40] fix: centre Gaussian bins on the data levels for every
 data range

---
 projects/bits_back_diffusion/bits_back_diffusion/codec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/codec.py b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
index becd85a..a8881b6 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/codec.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
@@ -703,8 +703,9 @@ def diag_gaussian_unif_bins(
         discretized using uniform bins.
     """
     n_bins = 1 << bin_prec
-    bin_min = data_min - 1 / (n_bins - 1)
-    bin_max = data_max + 1 / (n_bins - 1)
+    half_bin = (data_max - data_min) / (2 * (n_bins - 1))
+    bin_min = data_min - half_bin
+    bin_max = data_max + half_bin
 
     bins = np.linspace(bin_min, bin_max, n_bins + 1)
     bins = np.broadcast_to(np.moveaxis(bins, 0, -1), mean.shape + (n_bins + 1,))
-- 
2.43.0


From 9d4dde1f094605f3344daa46ad16411b529e7a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:38 +0000
Subject: [PATCH 34/40] fix: GAN training works with discriminators that take
 no context

---
 projects/illm/gan_compression_module.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/illm/gan_compression_module.py b/projects/illm/gan_compression_module.py
index bfd406c..f4bbfb7 100644
--- a/projects/illm/gan_compression_module.py
+++ b/projects/illm/gan_compression_module.py
@@ -166,8 +166,10 @@ class GANCompressionModule(TargetRateCompressionModule):
         else:
             disc_output = output
 
-        fake_logits = self.discriminator(output.image.detach(), output.latent.detach())
-        real_logits = self.discriminator(disc_images, disc_output.latent.detach())
+        fake_logits = self.run_discriminator(
+            output.image.detach(), output.latent.detach()
+        )
+        real_logits = self.run_discriminator(disc_images, disc_output.latent.detach())
 
         disc_loss = self.discriminator_loss(
             real_logits=real_logits, fake_logits=fake_logits, target=real_target
@@ -233,7 +235,7 @@ class GANCompressionModule(TargetRateCompressionModule):
 
         # generator loss
         g_loss = self.generator_loss(
-            self.discriminator(output.image, output.latent), target
+            self.run_discriminator(output.image, output.latent), target
         )
 
         # rate loss
-- 
2.43.0


From db06521c464d129029d6dcec63548555691d53e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:38 +0000
Subject: [PATCH 35/40] fix: DVC compresses the I-frame without overwriting the
 caller's clip

---
 projects/deep_video_compression/dvc_module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/deep_video_compression/dvc_module.py b/projects/deep_video_compression/dvc_module.py
index b849609..484479c 100644
--- a/projects/deep_video_compression/dvc_module.py
+++ b/projects/deep_video_compression/dvc_module.py
@@ -141,6 +141,7 @@ class DvcModule(LightningModule):
         with torch.no_grad():
             output = self.iframe_model(batch[:, 0])
 
+        batch = batch.clone()  # the caller keeps its original I-frame
         batch[:, 0] = output["x_hat"]
         num_pixels = batch.shape[0] * batch.shape[-2] * batch.shape[-1]
         bpp_loss = sum(
-- 
2.43.0


From 7186d1a62e272e13b2b0741f7ff3d424a14d287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:38 +0000
Subject: [PATCH 36/40] fix: DVC validation counts the I-frame's bits, as
 training does

---
 projects/deep_video_compression/dvc_module.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/projects/deep_video_compression/dvc_module.py b/projects/deep_video_compression/dvc_module.py
index 484479c..c9b981a 100644
--- a/projects/deep_video_compression/dvc_module.py
+++ b/projects/deep_video_compression/dvc_module.py
@@ -278,18 +278,21 @@ class DvcModule(LightningModule):
 
     def validation_step(self, batch, batch_idx):
         log_key = f"{self.training_stage}/val_"
+
+        # compress the iframe and get its bpp cost (no grads)
+        batch, iframe_bpp = self.compress_iframe(batch)
+
         # gop = "Group of Pictures"
         logging_metrics = LoggingMetrics(
             gop_total_loss=0,
             gop_distortion_loss=0,
-            gop_bpp=0,
+            gop_bpp=iframe_bpp,
             gop_flow_bpp=0,
             gop_residual_bpp=0,
         )
         image2_list = []
         image2_est_list = []
 
-        batch, gop_bpp = self.compress_iframe(batch)  # bpp_total w/o grads
         image1 = batch[:, 0]
         for i in range(self.num_pframes):
             image2 = batch[:, i + 1]
-- 
2.43.0


From 50c945054d8ad7c8d558ae1aaafc2319133c3f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:38 +0000
Subject: [PATCH 37/40] fix: VCT clamps reconstructions before converting them
 to bytes

---
 projects/torch_vct/model_lightning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/torch_vct/model_lightning.py b/projects/torch_vct/model_lightning.py
index 4e34f19..fbada36 100644
--- a/projects/torch_vct/model_lightning.py
+++ b/projects/torch_vct/model_lightning.py
@@ -65,7 +65,7 @@ class VCTModule(pytorch_lightning.LightningModule):
                 recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
             ).item()
             psnr_int = peak_signal_noise_ratio(
-                (recon_frames * 255 + 0.5).to(torch.uint8),
+                (recon_frames.clamp(0.0, 1.0) * 255 + 0.5).to(torch.uint8),
                 (batch.video_tensor * 255 + 0.5).to(torch.uint8),
                 data_range=255,
                 dim=(2, 3, 4),
@@ -107,7 +107,7 @@ class VCTModule(pytorch_lightning.LightningModule):
                     recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
                 ).item(),
                 "val_PSNR_int": peak_signal_noise_ratio(
-                    (recon_frames * 255 + 0.5).to(torch.uint8),
+                    (recon_frames.clamp(0.0, 1.0) * 255 + 0.5).to(torch.uint8),
                     (batch.video_tensor * 255 + 0.5).to(torch.uint8),
                     data_range=255,
                     dim=(2, 3, 4),
-- 
2.43.0


From 5b28ffdbeb6f4948829ea1ccbdcf9c2866423fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:06 +0000
Subject: [PATCH 38/40] fix: OpenImagesDataModule loads training data without
 worker processes

---
 projects/illm/open_images_datamodule.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/projects/illm/open_images_datamodule.py b/projects/illm/open_images_datamodule.py
index 27573d6..08c5eef 100644
--- a/projects/illm/open_images_datamodule.py
+++ b/projects/illm/open_images_datamodule.py
@@ -73,7 +73,6 @@ class OpenImagesDataModule(LightningDataModule):
             shuffle=True,
             num_workers=self.workers,
             pin_memory=self.pin_memory,
-            prefetch_factor=2,
         )
 
     def val_dataloader(self):
-- 
2.43.0


From a93b30d054d7584fae877190ec1b7b669660d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:50 +0000
Subject: [PATCH 39/40] fix: VCT training ignores existing checkpoints with
 checkpoint.overwrite, as documented

---
 projects/torch_vct/model_train.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/model_train.py b/projects/torch_vct/model_train.py
index 794bc6c..3481adf 100644
--- a/projects/torch_vct/model_train.py
+++ b/projects/torch_vct/model_train.py
@@ -102,7 +102,11 @@ def main(cfg: DictConfig) -> None:
 
     save_dir.mkdir(exist_ok=True, parents=True)
     last_checkpoint = save_dir / "last.ckpt"
-    if last_checkpoint.exists() and cfg.checkpoint.resume_training:
+    if (
+        last_checkpoint.exists()
+        and cfg.checkpoint.resume_training
+        and not cfg.checkpoint.overwrite
+    ):
         print(f"Resuming training from last checkpoint = {last_checkpoint}.")
     else:
         print(f"Initialising new model.")
-- 
2.43.0


From d6c76c73c59767ef0aca80f1c7b3756368034ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:50 +0000
Subject: [PATCH 40/40] fix: UVGDataModule normalizes single images (the video
 transform rejected them)

---
 projects/torch_vct/datamodules/uvg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projects/torch_vct/datamodules/uvg.py b/projects/torch_vct/datamodules/uvg.py
index eacd297..34ca0a4 100644
--- a/projects/torch_vct/datamodules/uvg.py
+++ b/projects/torch_vct/datamodules/uvg.py
@@ -10,8 +10,7 @@ import torch.utils.data
 import torchvision
 from datamodules.video_data_api import VideoDataset
 from pytorch_lightning import LightningDataModule
-from pytorchvideo.transforms import Normalize
-from torchvision.transforms import Compose, ToTensor
+from torchvision.transforms import Compose, Normalize, ToTensor
 
 
 class UVGDataModule(LightningDataModule):
-- 
2.43.0

