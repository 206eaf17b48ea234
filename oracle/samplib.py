"""Samplers over recorded schedulers."""
import jax
import jax.numpy as jnp
import numpy as np

from lib import *
from synthpix.sampler import RealImageSampler, SyntheticImageSampler
from synthpix.scheduler.protocol import EpisodeEnd
from synthpix.types import ImageGenerationSpecification as Spec, SchedulerData, SynthpixBatch


class Stub:
    """Serves distinguishable batches: field k of batch b has the constant velocity (b + 1, k + 1) / 8."""

    file_list = []

    def __init__(self, shape=(16, 16), images=False, mask=True, files=True, stop=None, kind=np.float32, smooth=True):
        self.shape, self.images, self.mask, self.files, self.stop, self.kind = shape, images, mask, files, stop, kind
        self.include_images = images
        self.log, self.batches = [], []
        self.first = ()

    def make(self, b, n):
        r = np.random.RandomState(100 + b)
        h, w = self.shape
        flow = np.zeros((n, h, w, 2), np.float32)
        for k in range(n):
            flow[k, ..., 0], flow[k, ..., 1] = (b + 1) / 8, (k + 1) / 8
        part = (lambda a: a + r.uniform(-99, 99, a.shape)) if np.issubdtype(self.kind, np.floating) else (lambda a: a)
        im = (lambda kind=self.kind: part(r.randint(0, 256, (n, h, w))).astype(kind)) if self.images else (lambda kind=None: None)
        has = lambda v: b % 2 == 0 if v == "some" else v  # ("some": every other batch)
        mask = r.rand(n) < .5 if has(self.mask) else None
        return SchedulerData(flow_fields=flow if not self.images else part(r.randint(-9, 9, (n, h, w, 2))).astype(self.kind),
                             images1=im(*self.first), images2=im(),
                             mask=mask,
                             files=tuple(f"b{b}_{k}" if mask is None or mask[k] else "" for k in range(n)) if has(self.files) else None)

    def get_batch(self, batch_size):
        self.log.append("get_batch")
        if self.stop is not None and len(self.batches) >= self.stop:
            raise StopIteration
        self.batches.append(self.make(len(self.batches), batch_size))
        return self.batches[-1]

    def get_flow_fields_shape(self):
        return (*self.shape, 2)

    def reset(self):
        self.log.append("reset")

    def shutdown(self):
        self.log.append("shutdown")


class EpStub(Stub):
    def __init__(self, length, rem=None, **k):
        super().__init__(**k)
        self.length, self.rem = length, length if rem is None else rem

    @property
    def episode_length(self):
        return self.length

    def steps_remaining(self):
        return self.rem

    def next_episode(self):
        self.log.append("next_episode")
        self.rem = self.length

    def get_batch(self, batch_size):
        if self.rem <= 0:
            raise EpisodeEnd
        self.rem -= 1
        return super().get_batch(batch_size)


def spec(**k):
    d = dict(batch_size=4, image_shape=(10, 12), img_offset=(0.5, 0.5), seeding_density_range=(0.05, 0.05), p_hide_img1=0.0,
             p_hide_img2=0.0, diameter_ranges=[(0.8, 1.2)], diameter_var=0.0, intensity_ranges=[(80.0, 100.0)], intensity_var=0.0,
             rho_ranges=[(-0.1, 0.1)], rho_var=0.0, dt=0.1, noise_uniform=0.0, noise_gaussian_mean=0.0, noise_gaussian_std=0.0)
    d.update(k)
    return Spec(**d)


def synthetic(scheduler, sp=None, **k):
    d = dict(batches_per_flow_batch=2, flow_fields_per_batch=2, flow_field_size=(16.0, 16.0), resolution=1.0, velocities_per_pixel=1.0,
             seed=0, max_speed_x=1.0, max_speed_y=1.0, min_speed_x=-1.0, min_speed_y=-1.0, output_units="measure units per second",
             device_ids=[0])
    d.update(k)
    return SyntheticImageSampler(scheduler=scheduler, generation_specification=sp or spec(), **d)
