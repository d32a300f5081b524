//! Stand-in for `futures-lite` 2: re-exports the shared `futures-core`/`futures-io` traits and offers the
//! extension methods of the same names.
pub use futures_core::Stream;
pub use futures_io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
pub use std::future::Future;

pub use future::FutureExt;
pub use io::{AsyncReadExt, AsyncWriteExt};
pub use stream::StreamExt;

#[macro_export]
macro_rules! ready {
    ($e:expr $(,)?) => {
        match $e {
            ::core::task::Poll::Ready(t) => t,
            ::core::task::Poll::Pending => return ::core::task::Poll::Pending,
        }
    };
}

#[macro_export]
macro_rules! pin {
    ($($x:ident),* $(,)?) => {
        $(
            let mut $x = $x;
            #[allow(unused_mut)]
            let mut $x = unsafe { ::core::pin::Pin::new_unchecked(&mut $x) };
        )*
    };
}

pub mod prelude {
    pub use crate::{
        future::{Future, FutureExt as _},
        io::{AsyncReadExt as _, AsyncWriteExt as _},
        stream::{Stream, StreamExt as _},
        AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite,
    };
}

pub mod future {
    pub use std::future::{pending, ready, Future, Pending, Ready};
    use std::pin::Pin;
    use std::sync::{Arc, Condvar, Mutex};
    use std::task::{Context, Poll, Wake, Waker};

    pub type Boxed<T> = Pin<Box<dyn Future<Output = T> + Send + 'static>>;
    pub type BoxedLocal<T> = Pin<Box<dyn Future<Output = T> + 'static>>;

    struct Parker(Mutex<bool>, Condvar);
    impl Wake for Parker {
        fn wake(self: Arc<Self>) {
            *self.0.lock().unwrap() = true;
            self.1.notify_one();
        }
    }

    pub fn block_on<T>(future: impl Future<Output = T>) -> T {
        let mut future = std::pin::pin!(future);
        let p = Arc::new(Parker(Mutex::new(false), Condvar::new()));
        let w = Waker::from(p.clone());
        let mut cx = Context::from_waker(&w);
        loop {
            if let Poll::Ready(x) = future.as_mut().poll(&mut cx) {
                return x;
            }
            let mut g = p.0.lock().unwrap();
            while !*g {
                g = p.1.wait(g).unwrap();
            }
            *g = false;
        }
    }

    pub fn poll_fn<T, F: FnMut(&mut Context<'_>) -> Poll<T>>(f: F) -> std::future::PollFn<F> {
        std::future::poll_fn(f)
    }

    pub async fn poll_once<T, F: Future<Output = T>>(f: F) -> Option<T> {
        let mut f = std::pin::pin!(f);
        std::future::poll_fn(move |cx| {
            Poll::Ready(match f.as_mut().poll(cx) {
                Poll::Ready(x) => Some(x),
                Poll::Pending => None,
            })
        })
        .await
    }

    pub async fn yield_now() {
        let mut done = false;
        std::future::poll_fn(move |cx| {
            if done {
                return Poll::Ready(());
            }
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        })
        .await
    }

    pub async fn zip<A: Future, B: Future>(a: A, b: B) -> (A::Output, B::Output) {
        let mut a = std::pin::pin!(a);
        let mut b = std::pin::pin!(b);
        let (mut ra, mut rb) = (None, None);
        std::future::poll_fn(move |cx| {
            if ra.is_none() {
                if let Poll::Ready(x) = a.as_mut().poll(cx) {
                    ra = Some(x);
                }
            }
            if rb.is_none() {
                if let Poll::Ready(x) = b.as_mut().poll(cx) {
                    rb = Some(x);
                }
            }
            if ra.is_some() && rb.is_some() {
                return Poll::Ready((ra.take().unwrap(), rb.take().unwrap()));
            }
            Poll::Pending
        })
        .await
    }

    pub async fn try_zip<T, U, E>(
        a: impl Future<Output = Result<T, E>>,
        b: impl Future<Output = Result<U, E>>,
    ) -> Result<(T, U), E> {
        let (a, b) = zip(a, b).await;
        Ok((a?, b?))
    }

    pub async fn or<T>(a: impl Future<Output = T>, b: impl Future<Output = T>) -> T {
        let mut a = std::pin::pin!(a);
        let mut b = std::pin::pin!(b);
        std::future::poll_fn(move |cx| {
            if let Poll::Ready(x) = a.as_mut().poll(cx) {
                return Poll::Ready(x);
            }
            b.as_mut().poll(cx)
        })
        .await
    }

    pub trait FutureExt: Future {
        fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Self::Output>
        where
            Self: Unpin,
        {
            Future::poll(Pin::new(self), cx)
        }
        fn boxed<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + Send + 'a>>
        where
            Self: Sized + Send + 'a,
        {
            Box::pin(self)
        }
        fn boxed_local<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + 'a>>
        where
            Self: Sized + 'a,
        {
            Box::pin(self)
        }
    }
    impl<F: Future + ?Sized> FutureExt for F {}
}

pub mod stream {
    pub use futures_core::stream::Stream;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    pub type Boxed<T> = Pin<Box<dyn Stream<Item = T> + Send + 'static>>;
    pub type BoxedLocal<T> = Pin<Box<dyn Stream<Item = T> + 'static>>;

    /// Stream made of a poll function over a boxed inner stream.
    struct Adapter<S, F>(Pin<Box<S>>, F);
    impl<S, F> Unpin for Adapter<S, F> {}
    impl<S, T, F> Stream for Adapter<S, F>
    where
        S: Stream,
        F: FnMut(Pin<&mut S>, &mut Context<'_>) -> Poll<Option<T>>,
    {
        type Item = T;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            let this = &mut *self;
            (this.1)(this.0.as_mut(), cx)
        }
    }

    pub struct Iter<I>(I);
    impl<I> Unpin for Iter<I> {}
    impl<I: Iterator> Stream for Iter<I> {
        type Item = I::Item;
        fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<I::Item>> {
            Poll::Ready(self.0.next())
        }
    }
    pub fn iter<I: IntoIterator>(i: I) -> Iter<I::IntoIter> {
        Iter(i.into_iter())
    }
    pub fn empty<T>() -> Iter<std::iter::Empty<T>> {
        Iter(std::iter::empty())
    }
    pub fn once<T>(t: T) -> Iter<std::iter::Once<T>> {
        Iter(std::iter::once(t))
    }
    pub struct PollFn<F>(F);
    impl<F> Unpin for PollFn<F> {}
    impl<T, F: FnMut(&mut Context<'_>) -> Poll<Option<T>>> Stream for PollFn<F> {
        type Item = T;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            (self.0)(cx)
        }
    }
    pub fn poll_fn<T, F: FnMut(&mut Context<'_>) -> Poll<Option<T>>>(f: F) -> PollFn<F> {
        PollFn(f)
    }
    pub fn unfold<T, S, F, Fut>(seed: S, mut f: F) -> impl Stream<Item = T>
    where
        F: FnMut(S) -> Fut,
        Fut: Future<Output = Option<(T, S)>>,
    {
        let mut state = Some(seed);
        let mut fut: Option<Pin<Box<Fut>>> = None;
        poll_fn(move |cx| {
            if fut.is_none() {
                match state.take() {
                    None => return Poll::Ready(None),
                    Some(s) => fut = Some(Box::pin(f(s))),
                }
            }
            match fut.as_mut().unwrap().as_mut().poll(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(r) => {
                    fut = None;
                    Poll::Ready(r.map(|(t, s)| {
                        state = Some(s);
                        t
                    }))
                }
            }
        })
    }

    /// The stream behind [`StreamExt::map`]; passes the inner stream's pin straight through.
    pub struct Map<S, F> {
        stream: Pin<Box<S>>,
        f: F,
    }
    impl<S, F> Unpin for Map<S, F> {}
    impl<S: Stream, T, F: FnMut(S::Item) -> T> Stream for Map<S, F> {
        type Item = T;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            let this = &mut *self;
            this.stream.as_mut().poll_next(cx).map(|x| x.map(&mut this.f))
        }
    }

    pub struct NextFuture<'a, S: ?Sized>(&'a mut S);
    impl<S: Unpin + ?Sized> Unpin for NextFuture<'_, S> {}
    impl<S: Stream + Unpin + ?Sized> Future for NextFuture<'_, S> {
        type Output = Option<S::Item>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            Pin::new(&mut *self.0).poll_next(cx)
        }
    }

    pub trait StreamExt: Stream {
        fn poll_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>
        where
            Self: Unpin,
        {
            Stream::poll_next(Pin::new(self), cx)
        }
        fn next(&mut self) -> NextFuture<'_, Self>
        where
            Self: Unpin,
        {
            NextFuture(self)
        }
        fn try_next<T, E>(&mut self) -> impl Future<Output = Result<Option<T>, E>>
        where
            Self: Stream<Item = Result<T, E>> + Unpin,
        {
            async move { NextFuture(self).await.transpose() }
        }
        fn map<T, F>(self, f: F) -> Map<Self, F>
        where
            Self: Sized,
            F: FnMut(Self::Item) -> T,
        {
            Map { stream: Box::pin(self), f }
        }
        fn filter<P>(self, mut p: P) -> impl Stream<Item = Self::Item> + Unpin
        where
            Self: Sized,
            P: FnMut(&Self::Item) -> bool,
        {
            Adapter(Box::pin(self), move |mut s: Pin<&mut Self>, cx: &mut Context<'_>| loop {
                match s.as_mut().poll_next(cx) {
                    Poll::Ready(Some(x)) if !p(&x) => continue,
                    other => return other,
                }
            })
        }
        fn filter_map<T, F>(self, mut f: F) -> impl Stream<Item = T> + Unpin
        where
            Self: Sized,
            F: FnMut(Self::Item) -> Option<T>,
        {
            Adapter(Box::pin(self), move |mut s: Pin<&mut Self>, cx: &mut Context<'_>| loop {
                match s.as_mut().poll_next(cx) {
                    Poll::Ready(Some(x)) => {
                        if let Some(y) = f(x) {
                            return Poll::Ready(Some(y));
                        }
                    }
                    Poll::Ready(None) => return Poll::Ready(None),
                    Poll::Pending => return Poll::Pending,
                }
            })
        }
        fn take(self, n: usize) -> impl Stream<Item = Self::Item> + Unpin
        where
            Self: Sized,
        {
            let mut left = n;
            Adapter(Box::pin(self), move |s: Pin<&mut Self>, cx: &mut Context<'_>| {
                if left == 0 {
                    return Poll::Ready(None);
                }
                let r = s.poll_next(cx);
                if let Poll::Ready(x) = &r {
                    left = if x.is_some() { left - 1 } else { 0 };
                }
                r
            })
        }
        fn take_while<P>(self, mut p: P) -> impl Stream<Item = Self::Item> + Unpin
        where
            Self: Sized,
            P: FnMut(&Self::Item) -> bool,
        {
            Adapter(Box::pin(self), move |s: Pin<&mut Self>, cx: &mut Context<'_>| {
                match s.poll_next(cx) {
                    Poll::Ready(Some(x)) if !p(&x) => Poll::Ready(None),
                    other => other,
                }
            })
        }
        fn skip(self, n: usize) -> impl Stream<Item = Self::Item> + Unpin
        where
            Self: Sized,
        {
            let mut left = n;
            StreamExt::filter(self, move |_| {
                if left > 0 {
                    left -= 1;
                    return false;
                }
                true
            })
        }
        fn skip_while<P>(self, mut p: P) -> impl Stream<Item = Self::Item> + Unpin
        where
            Self: Sized,
            P: FnMut(&Self::Item) -> bool,
        {
            let mut skipping = true;
            StreamExt::filter(self, move |x| {
                skipping = skipping && p(x);
                !skipping
            })
        }
        fn inspect<F>(self, mut f: F) -> impl Stream<Item = Self::Item> + Unpin
        where
            Self: Sized,
            F: FnMut(&Self::Item),
        {
            StreamExt::map(self, move |x| {
                f(&x);
                x
            })
        }
        fn enumerate(self) -> impl Stream<Item = (usize, Self::Item)> + Unpin
        where
            Self: Sized,
        {
            let mut i = 0;
            StreamExt::map(self, move |x| {
                i += 1;
                (i - 1, x)
            })
        }
        fn fuse(self) -> impl Stream<Item = Self::Item> + Unpin
        where
            Self: Sized,
        {
            let mut done = false;
            Adapter(Box::pin(self), move |s: Pin<&mut Self>, cx: &mut Context<'_>| {
                if done {
                    return Poll::Ready(None);
                }
                let r = s.poll_next(cx);
                if let Poll::Ready(None) = &r {
                    done = true;
                }
                r
            })
        }
        fn collect<C>(self) -> impl Future<Output = C>
        where
            Self: Sized,
            C: Default + Extend<Self::Item>,
        {
            async move {
                let mut s = Box::pin(self);
                let mut out = C::default();
                while let Some(x) = NextFuture(&mut s).await {
                    out.extend(Some(x));
                }
                out
            }
        }
        fn try_collect<T, E, C>(self) -> impl Future<Output = Result<C, E>>
        where
            Self: Stream<Item = Result<T, E>> + Sized,
            C: Default + Extend<T>,
        {
            async move {
                let mut s = Box::pin(self);
                let mut out = C::default();
                while let Some(x) = NextFuture(&mut s).await {
                    out.extend(Some(x?));
                }
                Ok(out)
            }
        }
        fn fold<T, F>(self, init: T, mut f: F) -> impl Future<Output = T>
        where
            Self: Sized,
            F: FnMut(T, Self::Item) -> T,
        {
            async move {
                let mut s = Box::pin(self);
                let mut acc = init;
                while let Some(x) = NextFuture(&mut s).await {
                    acc = f(acc, x);
                }
                acc
            }
        }
        fn for_each<F>(self, mut f: F) -> impl Future<Output = ()>
        where
            Self: Sized,
            F: FnMut(Self::Item),
        {
            StreamExt::fold(self, (), move |_, x| f(x))
        }
        fn count(self) -> impl Future<Output = usize>
        where
            Self: Sized,
        {
            StreamExt::fold(self, 0, |n, _| n + 1)
        }
        fn last(self) -> impl Future<Output = Option<Self::Item>>
        where
            Self: Sized,
        {
            StreamExt::fold(self, None, |_, x| Some(x))
        }
        fn boxed<'a>(self) -> Pin<Box<dyn Stream<Item = Self::Item> + Send + 'a>>
        where
            Self: Sized + Send + 'a,
        {
            Box::pin(self)
        }
        fn boxed_local<'a>(self) -> Pin<Box<dyn Stream<Item = Self::Item> + 'a>>
        where
            Self: Sized + 'a,
        {
            Box::pin(self)
        }
    }
    impl<S: Stream + ?Sized> StreamExt for S {}
}

pub mod io {
    pub use futures_io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
    pub use std::io::{Error, ErrorKind, Result, SeekFrom};
    use std::future::Future;
    use std::pin::Pin;

    pub trait AsyncReadExt: AsyncRead {
        fn read<'a>(&'a mut self, buf: &'a mut [u8]) -> impl Future<Output = Result<usize>> + 'a
        where
            Self: Unpin,
        {
            std::future::poll_fn(move |cx| Pin::new(&mut *self).poll_read(cx, buf))
        }
        fn read_exact<'a>(&'a mut self, buf: &'a mut [u8]) -> impl Future<Output = Result<()>> + 'a
        where
            Self: Unpin,
        {
            async move {
                let mut at = 0;
                while at < buf.len() {
                    let n = std::future::poll_fn(|cx| {
                        Pin::new(&mut *self).poll_read(cx, &mut buf[at..])
                    })
                    .await?;
                    if n == 0 {
                        return Err(ErrorKind::UnexpectedEof.into());
                    }
                    at += n;
                }
                Ok(())
            }
        }
    }
    impl<R: AsyncRead + ?Sized> AsyncReadExt for R {}

    pub trait AsyncWriteExt: AsyncWrite {
        fn write_all<'a>(&'a mut self, buf: &'a [u8]) -> impl Future<Output = Result<()>> + 'a
        where
            Self: Unpin,
        {
            async move {
                let mut at = 0;
                while at < buf.len() {
                    let n = std::future::poll_fn(|cx| {
                        Pin::new(&mut *self).poll_write(cx, &buf[at..])
                    })
                    .await?;
                    if n == 0 {
                        return Err(ErrorKind::WriteZero.into());
                    }
                    at += n;
                }
                Ok(())
            }
        }
        fn flush<'a>(&'a mut self) -> impl Future<Output = Result<()>> + 'a
        where
            Self: Unpin,
        {
            std::future::poll_fn(move |cx| Pin::new(&mut *self).poll_flush(cx))
        }
        fn close<'a>(&'a mut self) -> impl Future<Output = Result<()>> + 'a
        where
            Self: Unpin,
        {
            std::future::poll_fn(move |cx| Pin::new(&mut *self).poll_close(cx))
        }
    }
    impl<W: AsyncWrite + ?Sized> AsyncWriteExt for W {}
}
