"""setup_cmd: the code under test imports and the simulator is repeatable."""
import sys


def main():
    from . import env
    env.bootstrap()
    from . import kernel
    import threading
    import time

    def once(seed):
        sim = kernel.Sim(seed)
        log = []

        def body():
            def t(i):
                for k in range(3):
                    time.sleep(0.1 * (i + 1))
                    log.append((i, k))
            ts = [threading.Thread(target=t, args=(i,)) for i in range(3)]
            for x in ts:
                x.start()
            for x in ts:
                x.join()

        env.begin_run(sim.seed, sim)
        try:
            status, _ = sim.run(body)
        finally:
            env.end_run()
        return status, log, sim.digest()

    a, b = once("s#0"), once("s#0")
    assert a == b and a[0] == "ok" and len(a[1]) == 9, (a, b)
    print("simkit ready:", env.REPO)
    return 0


if __name__ == "__main__":
    sys.exit(main())
