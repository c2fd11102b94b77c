"""Ray for the scenarios that need it, kept inside the scratch directory.

mode True: real worker processes. mode "local": actors run inside this process, which allows many
more cases; the order in which finished tasks are handed out is then drawn by `scheduler`.
"""

import os
import random

scheduler = random.Random(0)


def start(mode=True, num_cpus=6):
    import ray

    tmp = os.path.join(os.environ["VERIF_SCRATCH"], f"r{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    common = dict(include_dashboard=False, log_to_driver=False, logging_level="ERROR", _temp_dir=tmp, ignore_reinit_error=True, num_cpus=num_cpus, object_store_memory=200 * 1024 * 1024)
    how = dict(local_mode=True) if mode == "local" else dict(address="local")
    for attempt in range(3):
        try:
            ray.init(**how, **common)
            break
        except Exception:
            # a start that timed out on a busy machine
            if attempt == 2:
                raise
            ray.shutdown()
    if mode == "local":
        wait = ray.wait

        def shuffled_wait(futures, **kw):
            futures = list(futures)
            scheduler.shuffle(futures)
            return wait(futures, **kw)

        ray.wait = shuffled_wait


def stop():
    import ray

    ray.shutdown()
