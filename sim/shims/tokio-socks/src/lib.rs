//! The part of tokio-socks that is used: a SOCKS5 client without authentication.
pub mod tcp {
    use std::io::{Error, Result};
    use std::net::SocketAddr;
    use std::ops::Deref;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};
    use tokio::net::TcpStream;
    #[derive(Debug)]
    pub struct Socks5Stream<S> {
        socket: S,
    }
    impl Socks5Stream<TcpStream> {
        pub async fn connect_with_socket(mut socket: TcpStream, target: SocketAddr) -> Result<Self> {
            socket.write_all(&[5, 1, 0]).await?;
            let mut r = [0u8; 2];
            socket.read_exact(&mut r).await?;
            if r != [5, 0] {
                return Err(Error::other("no acceptable authentication method"));
            }
            let mut m = vec![5, 1, 0];
            match target {
                SocketAddr::V4(a) => {
                    m.push(1);
                    m.extend(a.ip().octets());
                }
                SocketAddr::V6(a) => {
                    m.push(4);
                    m.extend(a.ip().octets());
                }
            }
            m.extend(target.port().to_be_bytes());
            socket.write_all(&m).await?;
            let mut r = [0u8; 4];
            socket.read_exact(&mut r).await?;
            if r[0] != 5 || r[1] != 0 {
                return Err(Error::other(format!("proxy refused: {}", r[1])));
            }
            let mut rest = vec![0u8; if r[3] == 4 { 18 } else { 6 }];
            socket.read_exact(&mut rest).await?;
            Ok(Self { socket })
        }
    }
    impl<S> Deref for Socks5Stream<S> {
        type Target = S;
        fn deref(&self) -> &S {
            &self.socket
        }
    }
    impl<S: AsyncRead + Unpin> AsyncRead for Socks5Stream<S> {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
            Pin::new(&mut self.socket).poll_read(cx, buf)
        }
    }
    impl<S: AsyncWrite + Unpin> AsyncWrite for Socks5Stream<S> {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
            Pin::new(&mut self.socket).poll_write(cx, buf)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
            Pin::new(&mut self.socket).poll_flush(cx)
        }
        fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
            Pin::new(&mut self.socket).poll_shutdown(cx)
        }
    }
}
