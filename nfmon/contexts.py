"""The ways in which a search can be called."""
import asyncio
import threading

from nodefinder import search


def plain(gap, **kwargs):
    return search.run(gap, **kwargs)


def existing_loop(gap, **kwargs):
    """With a current event loop which is not running."""
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        return search.run(gap, **kwargs)
    finally:
        asyncio.set_event_loop(None)
        loop.close()


def awaited(gap, **kwargs):
    return asyncio.run(search.run_async(gap, **kwargs))


def nested(gap, **kwargs):
    """From within a running loop."""
    async def main():
        return search.run(gap, **kwargs)

    return asyncio.run(main())


def threaded(gap, **kwargs):
    """From a thread without event loop."""
    out = []

    def target():
        try:
            out.append((search.run(gap, **kwargs), None))
        except BaseException as exc:  # pylint: disable=broad-except
            out.append((None, exc))

    thread = threading.Thread(target=target)
    thread.start()
    thread.join()
    res, exc = out[0]
    if exc is not None:
        raise exc
    return res


def gathered(gap, **kwargs):
    """Awaited together with other tasks on the same loop."""
    async def noise():
        for _ in range(300):
            await asyncio.sleep(0)

    async def main():
        task = asyncio.ensure_future(noise())
        try:
            return await search.run_async(gap, **kwargs)
        finally:
            task.cancel()

    return asyncio.run(main())


CONTEXTS = dict(
    plain=plain,
    existing_loop=existing_loop,
    awaited=awaited,
    nested=nested,
    threaded=threaded,
    gathered=gathered
)
