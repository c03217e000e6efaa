# ---- C01
m('c01-packet-offset-len','C01',(S,"vec = vec.split_off(off)","vec = vec.split_off(off.min(vec.len() - off))"))
m('c01-syn-body-fin','C02',(C,"                shared.buffer.push(frame.into_body());\n            }\n            self.streams.insert","                if shared.state().can_read() {\n                    shared.buffer.push(frame.into_body());\n                }\n            }\n            self.streams.insert"))
m('c01-read-exact-chunk','C01',(S,"            if n == buf.len() {\n                break;\n            }","            if n == buf.len() {\n                if buf.len() > 1 && chunk.len() == 1 {\n                    shared.buffer.pop();\n                }\n                break;\n            }"))
m('c01-body-partial','C01',(IO,"                        *offset += n;\n\n                        if *offset > buffer.len() {","                        *offset = if *offset > 0 && n == 1 { *offset + n - 1 + (*offset % 7 == 0) as usize } else { *offset + n };\n\n                        if *offset > buffer.len() {"))
# ---- C02
m('c02-rst-drops-buffer','C19',(C,"""                let mut shared = s.lock();
                shared.update_state(self.id, stream_id, State::Closed);
                if let Some(w) = shared.reader.take() {
                    w.wake()
                }
                if let Some(w) = shared.writer.take() {
                    w.wake()
                }
            }
            return Action::None;
        }

        let is_finish = frame.header().flags().contains(header::FIN); // half-close

        if frame.header().flags().contains(header::SYN) {
            // new stream
            if !self.is_valid_remote_id(stream_id, Tag::Data) {""","""                let mut shared = s.lock();
                shared.update_state(self.id, stream_id, State::Closed);
                shared.buffer = crate::chunks::Chunks::new();
                if let Some(w) = shared.reader.take() {
                    w.wake()
                }
                if let Some(w) = shared.writer.take() {
                    w.wake()
                }
            }
            return Action::None;
        }

        let is_finish = frame.header().flags().contains(header::FIN); // half-close

        if frame.header().flags().contains(header::SYN) {
            // new stream
            if !self.is_valid_remote_id(stream_id, Tag::Data) {"""))
m('c02-recvclosed-sendclosed','C02',(S,"(RecvClosed, SendClosed) => self.state = Closed,","(RecvClosed, SendClosed) => self.state = SendClosed,"))
m('c02-sendclosed-recvclosed','C02',(S,"(SendClosed, RecvClosed) => self.state = Closed,","(SendClosed, RecvClosed) => self.state = RecvClosed,"))
m('c02-reopen-recv','C02',(S,"(RecvClosed, Open { .. }) => {}","(RecvClosed, Open { .. }) => self.state = next,"))
m('c02-reopen-send','C12',(S,"(SendClosed, Open { .. }) => {}","(SendClosed, Open { .. }) => self.state = next,"))
m('c02-syn-fin-ignored','C02',(C,"""            if is_finish {
                stream
                    .shared()
                    .update_state(self.id, stream_id, State::RecvClosed);
            }
""",""))
# ---- C03
m('c03-wu-fin-nowake','C03',(C,"""                shared.update_state(self.id, stream_id, State::RecvClosed);

                if let Some(w) = shared.reader.take() {
                    w.wake()
                }
            }
            if let Some(w) = shared.writer""","""                shared.update_state(self.id, stream_id, State::RecvClosed);
            }
            if let Some(w) = shared.writer"""))
m('c03-small-credit-nowake','C03',(C,"""            if let Some(w) = shared.writer.take() {
                w.wake()
            }
        } else {
            log::trace!(
                "{}/{}: window update""","""            if frame.header().credit() >= DEFAULT_CREDIT / 2 {
                if let Some(w) = shared.writer.take() {
                    w.wake()
                }
            }
        } else {
            log::trace!(
                "{}/{}: window update"""))
m('c03-flush-only-idle','C03',(C,"match self.socket.poll_flush_unpin(cx)? {\n                Poll::Ready(()) => {}\n                Poll::Pending => {}\n            }","if self.pending_write_frame.is_none() && self.streams.is_empty() {\n                match self.socket.poll_flush_unpin(cx)? {\n                    Poll::Ready(()) => {}\n                    Poll::Pending => {}\n                }\n            }"))
m('c03-reader-nowake-on-buffered','C03',(C,"""            if is_finish {
                shared.update_state(self.id, stream_id, State::RecvClosed);
            }

            if let Some(w) = shared.reader.take() {""","""            if is_finish {
                shared.update_state(self.id, stream_id, State::RecvClosed);
                return Action::None;
            }

            if let Some(w) = shared.reader.take() {"""))
m('c03-rst-writer-nowake','C03',(C,"""            if let Some(s) = self.streams.get_mut(&stream_id) {
                let mut shared = s.lock();
                shared.update_state(self.id, stream_id, State::Closed);
                if let Some(w) = shared.reader.take() {
                    w.wake()
                }
                if let Some(w) = shared.writer.take() {
                    w.wake()
                }
            }
            return Action::None;
        }

        let is_finish = frame.header().flags().contains(header::FIN); // half-close

        if frame.header().flags().contains(header::SYN) {
            // new stream
            if !self.is_valid_remote_id(stream_id, Tag::Data) {""","""            if let Some(s) = self.streams.get_mut(&stream_id) {
                let mut shared = s.lock();
                shared.update_state(self.id, stream_id, State::Closed);
                let waker = shared.reader.take().or_else(|| shared.writer.take());
                if let Some(w) = waker {
                    w.wake()
                }
            }
            return Action::None;
        }

        let is_finish = frame.header().flags().contains(header::FIN); // half-close

        if frame.header().flags().contains(header::SYN) {
            // new stream
            if !self.is_valid_remote_id(stream_id, Tag::Data) {"""))
m('c03-dropall-writer','C17',(C,"""            shared.update_state(self.id, id, State::Closed);
            if let Some(w) = shared.reader.take() {
                w.wake()
            }
            if let Some(w) = shared.writer.take() {
                w.wake()
            }
        }
    }""","""            shared.update_state(self.id, id, State::Closed);
            if let Some(w) = shared.reader.take() {
                w.wake()
            } else if let Some(w) = shared.writer.take() {
                w.wake()
            }
        }
    }"""))
m('c03-stale-reader','C03',(S,"        // Since we have no more data at this point, we want to be woken up\n        // by the connection when more becomes available for us.\n        shared.reader = Some(cx.waker().clone());\n\n        Poll::Pending\n    }\n}\n\nimpl AsyncWrite","        // Since we have no more data at this point, we want to be woken up\n        // by the connection when more becomes available for us.\n        shared.reader.get_or_insert_with(|| cx.waker().clone());\n\n        Poll::Pending\n    }\n}\n\nimpl AsyncWrite"))
m('c03-stale-writer','C03',(S,"shared.writer = Some(cx.waker().clone());","shared.writer.get_or_insert_with(|| cx.waker().clone());"))
m('c03-flush-noop','C03',(S,"        self.sender\n            .poll_flush_unpin(cx)\n            .map_err(|_| self.write_zero_err())","        if self.sender.is_closed() {\n            return Poll::Ready(Err(self.write_zero_err()));\n        }\n        let _ = self.sender.poll_ready(cx);\n        Poll::Pending"))
# ---- C04
m('c04-inbound-credit','C04',(C,"frame.header().credit().checked_add(DEFAULT_CREDIT)","frame.header().credit().checked_add(DEFAULT_CREDIT).map(|c| c - frame.header().credit() / 2)"))
m('c04-first-frame-unsplit','C04',(S,"let k = std::cmp::min(k, self.config.split_send_size);","let k = if shared.is_pending_ack() { k } else { std::cmp::min(k, self.config.split_send_size) };"))
m('c04-consume-less','C04',(S,".consume_send_window(k as u32)",".consume_send_window(k as u32 & !1)"))
m('c04-syn-credit-ignored','C04',(C,"let stream = self.make_new_inbound_stream(stream_id, credit);","let stream = self.make_new_inbound_stream(stream_id, credit.min(DEFAULT_CREDIT));"))
m('c04-closed-credit','C04',(C,"            if let Err(err) = shared.increase_send_window_by(frame.header().credit()) {","            let credit = if is_finish { 0 } else { frame.header().credit() };\n            if let Err(err) = shared.increase_send_window_by(credit) {"))
m('c04-write-last-byte','C04',(S,"if shared.send_window() == 0 {","if shared.send_window() < 2.min(buf.len() as u32) {"))
# ---- C05
m('c05-recalc-nobuf','C05',(F,"            next_window_update =\n                bytes_received.saturating_sub(buffer_len.try_into().unwrap_or(u32::MAX));\n        }\n\n        self.last","            next_window_update = bytes_received;\n        }\n\n        self.last"))
m('c05-threshold','C05',(F,"if next_window_update < self.max_receive_window / 2 {","if next_window_update <= self.max_receive_window / 2 + DEFAULT_CREDIT / 8 {"))
m('c05-len-ignores-offset','C05',(K,"self.len - self.seq.front().map(|c| c.offset()).unwrap_or(0)","self.len"))
m('c05-len-skips-front','C05',(K,"self.len - self.seq.front().map(|c| c.offset()).unwrap_or(0)","self.len - self.seq.front().filter(|c| c.offset() > 0).map(|c| c.offset() + c.len()).unwrap_or(0)"))
m('c05-syn-not-consumed','C07',(C,"if let Err(_err) = shared.consume_receive_window(frame.body_len()) {\n                    log::error!(\n                        \"{}/{}: 1st","if let Err(_err) = shared.consume_receive_window(if is_finish { frame.body_len() } else { 0 }) {\n                    log::error!(\n                        \"{}/{}: 1st"))
# ---- C06
m('c06-rtt4','C06',(F,"< rtt * 2)","< rtt * 4)"))
m('c06-le','C06',(F,"self.last_window_update.elapsed() < rtt * 2)","self.last_window_update.elapsed() <= rtt * 2 + rtt / 8)"))
m('c06-no-release','C06',(F,"        *accumulated_max_stream_windows -= (self.max_receive_window - DEFAULT_CREDIT) as usize;","        *accumulated_max_stream_windows -= ((self.max_receive_window - DEFAULT_CREDIT) / DEFAULT_CREDIT * DEFAULT_CREDIT) as usize;"))
m('c06-last-update','C06',(F,"        self.last_window_update = Instant::now();\n        self.receive_window += next_window_update;","        if self.max_receive_window > DEFAULT_CREDIT {\n            self.last_window_update = Instant::now();\n        }\n        self.receive_window += next_window_update;"))
m('c06-account-default','C06',(F,"*accumulated_max_stream_windows += (new_max - self.max_receive_window) as usize;","*accumulated_max_stream_windows += (new_max - DEFAULT_CREDIT) as usize;"))
m('c06-limit-no-acc','C06',(F,"                    - *accumulated_max_stream_windows,\n","                    - (*accumulated_max_stream_windows).min(4 * DEFAULT_CREDIT as usize),\n"))
m('c06-split-lock','C06',(F,"            let mut accumulated_max_stream_windows = self.accumulated_max_stream_windows.lock();\n\n            // Ideally","            let accumulated = *self.accumulated_max_stream_windows.lock();\n\n            // Ideally"),(F,"- *accumulated_max_stream_windows,\n","- accumulated,\n"),(F,"*accumulated_max_stream_windows += (new_max - self.max_receive_window) as usize;\n            drop(accumulated_max_stream_windows);","*self.accumulated_max_stream_windows.lock() += (new_max - self.max_receive_window) as usize;"))
m('c06-quadruple','C06',(F,"self.max_receive_window.saturating_mul(2)","self.max_receive_window.saturating_mul(if next_window_update == self.max_receive_window { 4 } else { 2 })"))
# ---- C07
m('c07-push-before','C07',(C,"            let mut shared = s.lock();\n\n            if let Err(_err) = shared.consume_receive_window","            let mut shared = s.lock();\n            if shared.state().can_read() && frame.body_len() > 0 && shared.buffer.len() == 0 && !is_finish {\n                let len = frame.body_len();\n                shared.buffer.push(frame.into_body());\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n                if shared.consume_receive_window(len).is_err() {\n                    return Action::Terminate(Frame::protocol_error());\n                }\n                return Action::None;\n            }\n\n            if let Err(_err) = shared.consume_receive_window"))
m('c07-overshoot','C07',(F,"        self.receive_window = self\n            .receive_window\n            .checked_sub(i)\n            .ok_or(ConnectionError::InvalidWindowUpdate)?;","        if self.receive_window == 0 && i > 0 {\n            return Err(ConnectionError::InvalidWindowUpdate);\n        }\n        self.receive_window = self.receive_window.saturating_sub(i);"))
m('c07-last-byte','C07',(F,"        self.receive_window = self\n            .receive_window\n            .checked_sub(i)\n            .ok_or(ConnectionError::InvalidWindowUpdate)?;","        if i > 0 && i == self.max_receive_window {\n            return Err(ConnectionError::InvalidWindowUpdate);\n        }\n        self.receive_window = self\n            .receive_window\n            .checked_sub(i)\n            .ok_or(ConnectionError::InvalidWindowUpdate)?;"))
m('c07-syn-body-limit','C09',(C,"if frame.body().len() > DEFAULT_CREDIT as usize {","if frame.body().len() > DEFAULT_CREDIT as usize && !is_finish {"),(C,"if let Err(_err) = shared.consume_receive_window(frame.body_len()) {\n                    log::error!(\n                        \"{}/{}: 1st","if let Err(_err) = shared.consume_receive_window(frame.body_len().min(DEFAULT_CREDIT)) {\n                    log::error!(\n                        \"{}/{}: 1st"))
# ---- C08
m('c08-version','C08',(H,"if buf[0] != 0 {","if buf[0] > 1 {"))
m('c08-body-eof','C08',(IO,"""                        0 => {
                            let e = FrameDecodeError::Io(io::ErrorKind::UnexpectedEof.into());
                            return Poll::Ready(Some(Err(e)));
                        }
                        n => *offset += n,
                    }
                }
            }""","""                        0 => {
                            if *offset == 0 {
                                return Poll::Ready(None);
                            }
                            let e = FrameDecodeError::Io(io::ErrorKind::UnexpectedEof.into());
                            return Poll::Ready(Some(Err(e)));
                        }
                        n => *offset += n,
                    }
                }
            }"""))
m('c08-header-eof','C08',(IO,"if *offset == 0 {\n                                return","if *offset <= 1 {\n                                return"))
m('c08-tag-high','C08',(H,"tag: match buf[1] {","tag: match buf[1] & 0x7f {"))
m('c08-unknown-wu-terminates','C08',(C,"""                "{}/{}: window update for unknown stream, possibly dropped earlier: {:?}",
                self.id,
                stream_id,
                frame
            );""","""                "{}/{}: window update for unknown stream, possibly dropped earlier: {:?}",
                self.id,
                stream_id,
                frame
            );
            if stream_id.val() > self.next_id {
                return Action::Terminate(Frame::protocol_error());
            }"""))
m('c08-header-refill','C08',(IO,"                        n => *offset += n,\n                    }\n                }\n                ReadState::Body","                        n => *offset = (*offset + n).max(if *offset == 11 { 12 } else { n }),\n                    }\n                }\n                ReadState::Body"))
m('c08-pong-panic','C08',(R,"let rtt = sent_at.elapsed();","let rtt = sent_at.elapsed().checked_sub(Duration::from_nanos(1)).expect(\"time passes\");"))
# ---- C09
m('c09-wu-parity','C09',(C,"if !self.is_valid_remote_id(stream_id, Tag::WindowUpdate) {","if stream_id.is_session() {"))
m('c09-wu-dup','C09',(C,"""            if self.streams.contains_key(&stream_id) {
                log::error!("{}/{}: stream already exists", self.id, stream_id);
                return Action::Terminate(Frame::protocol_error());
            }
            if self.streams.len() == self.config.max_num_streams {
                log::error!("{}: maximum number of streams reached", self.id);
                return Action::Terminate(Frame::protocol_error());""","""            if self.streams.get(&stream_id).map_or(false, |s| s.lock().state() != State::Closed) {
                log::error!("{}/{}: stream already exists", self.id, stream_id);
                return Action::Terminate(Frame::protocol_error());
            }
            if self.streams.len() == self.config.max_num_streams {
                log::error!("{}: maximum number of streams reached", self.id);
                return Action::Terminate(Frame::protocol_error());"""))
m('c09-credit-saturate','C09',(F,"        self.send_window = self\n            .send_window\n            .checked_add(i)\n            .ok_or(ConnectionError::InvalidWindowUpdate)?;","        self.send_window = self.send_window.saturating_add(i);"))
m('c09-syn-credit-saturate','C09',(C,"let Some(credit) = frame.header().credit().checked_add(DEFAULT_CREDIT) else {","let Some(credit) = Some(frame.header().credit().saturating_add(DEFAULT_CREDIT)) else {"))
m('c09-pong-any','C09',(R,"if received_id != expected_id {","if received_id > expected_id {"))
m('c09-pong-unexpected','C09',(R,"""                log::error!("received unexpected pong {received_id}");
                return Action::Terminate(Frame::protocol_error());""","""                log::debug!("received unexpected pong {received_id}");
                return Action::None;"""))
# ---- C10
m('c10-alloc-first','C10',(IO,"                        if body_len > MAX_FRAME_BODY_LEN {","                        let body = vec![0u8; body_len];\n                        if body_len > MAX_FRAME_BODY_LEN {"),(IO,"buffer: vec![0; body_len],","buffer: body,"))
m('c10-limit-le','C10',(IO,"if body_len > MAX_FRAME_BODY_LEN {","if body_len >= MAX_FRAME_BODY_LEN {"))
m('c10-limit-16','C10',(IO,"const MAX_FRAME_BODY_LEN: usize = crate::MIB;","const MAX_FRAME_BODY_LEN: usize = 16 * crate::MIB;"))
m('c10-empty-chunks','C10',(K,"        if !x.is_empty() {\n            self.seq.push_back(Chunk {\n                cursor: io::Cursor::new(x),\n            })\n        }","        self.seq.push_back(Chunk {\n            cursor: io::Cursor::new(x),\n        })"))
m('c10-cap','C10',(IO,"buffer: vec![0; body_len],","buffer: {\n                                let mut v = Vec::with_capacity(MAX_FRAME_BODY_LEN);\n                                v.resize(body_len, 0);\n                                v\n                            },"))
# ---- C11
m('c11-header-partial','C11',(IO,"                        *offset += n;\n\n                        if *offset > header.len() {","                        *offset = n.max(*offset + 1).max(if *offset == 0 { n } else { *offset + n - (n > 5) as usize });\n\n                        if *offset > header.len() {"))
m('c11-fin-len','C11',(C,"                    let mut header = Header::data(stream_id, 0);\n                    header.fin();","                    let mut header = Header::data(stream_id, 1);\n                    header.fin();"))
m('c11-pong-sid','C11',(C,"let mut hdr = Header::ping(frame.header().id());\n            hdr.ack();","let mut hdr = Header::ping(frame.header().id());\n            hdr.ack();\n            if frame.header().id() == u32::MAX {\n                hdr.syn();\n            }"))
m('c11-overwrite','C11',(C,"            if self.socket.poll_ready_unpin(cx)?.is_ready() {","            let ready = self.socket.poll_ready_unpin(cx)?.is_ready();\n            if ready || (self.pending_read_frames.len() > 1 && self.pending_write_frame.is_some()) {"))
# ---- C12
m('c12-wu-flag','C12',(S,"        self.add_flag(frame.header_mut());\n        if frame.header().flags().contains(ACK) {\n            self.shared()\n                .update_state(self.conn, self.id, State::Open { acknowledged: true });\n        }\n        let cmd = StreamCommand::SendFrame(frame);\n        let _ = self.window","        let flag = self.flag;\n        self.add_flag(frame.header_mut());\n        if frame.header().flags().contains(ACK) {\n            self.shared()\n                .update_state(self.conn, self.id, State::Open { acknowledged: true });\n            self.flag = flag;\n        }\n        let cmd = StreamCommand::SendFrame(frame);\n        let _ = self.window"))
m('c12-drop-recvclosed-rst','C19',(C,"                    let mut header = Header::data(stream_id, 0);\n                    header.fin();\n                    Some(Frame::new(header))","                    let mut header = Header::data(stream_id, 0);\n                    header.rst();\n                    Some(Frame::new(header))"))
m('c12-drop-sendclosed-rst','C12',(C,"                    // be known.\n                    None","                    // be known.\n                    let mut header = Header::data(stream_id, 0);\n                    header.rst();\n                    Some(Frame::new(header))"))
m('c12-drop-unacked','C19',(C,"                State::Open { .. } => {\n                    let mut header","                State::Open { acknowledged: false } => None,\n                State::Open { .. } => {\n                    let mut header"))
# ---- C13
m('c13-saturate','C13',(C,"            .checked_add(2)\n            .ok_or(ConnectionError::NoMoreStreamIds)?;","            .checked_add(2)\n            .or(Some(self.next_id).filter(|_| self.streams.is_empty()))\n            .ok_or(ConnectionError::NoMoreStreamIds)?;"))
m('c13-wrap','C13',(C,"            .checked_add(2)\n            .ok_or(ConnectionError::NoMoreStreamIds)?;","            .checked_add(2)\n            .or(Some(1 + (self.mode == Mode::Server) as u32))\n            .ok_or(ConnectionError::NoMoreStreamIds)?;"))
m('c13-reuse-closed','C13',(C,"let id = self.next_stream_id()?;","let id = self.next_stream_id()?;\n        if self.streams.is_empty() && id.val() > 1000 {\n            self.next_id -= 2;\n        }"))
# ---- C14
m('c14-outbound-only','C14',(C,"if self.streams.len() >= self.config.max_num_streams {","if self.streams.keys().filter(|id| id.is_client() == (self.mode == Mode::Client)).count() >= self.config.max_num_streams {"))
m('c14-wu-limit','C14',(C,"""                log::error!("{}: maximum number of streams reached", self.id);
                return Action::Terminate(Frame::protocol_error());""","""                log::error!("{}: maximum number of streams reached", self.id);
                if frame.header().credit() == 0 {
                    return Action::Terminate(Frame::protocol_error());
                }"""))
m('c14-closed-not-counted','C14',(C,"if self.streams.len() >= self.config.max_num_streams {","if self.streams.values().filter(|s| s.lock().state() != State::Closed).count() >= self.config.max_num_streams {"))
# ---- C15
m('c15-server-mode','C15',(C,"            .filter(|(id, _)| match self.mode {\n                Mode::Client => id.is_client(),\n                Mode::Server => id.is_server(),\n            })","            .filter(|(id, _)| match self.mode {\n                Mode::Client => id.is_client(),\n                Mode::Server => id.is_client(),\n            })"))
m('c15-ack-data-only','C15',(C,"&& matches!(frame.header().tag(), Tag::Data | Tag::WindowUpdate)","&& matches!(frame.header().tag(), Tag::Data)"))
m('c15-count-halfclosed','C15',(S,"            State::Open {\n                acknowledged: false\n            }\n        )","            State::Open {\n                acknowledged: false\n            } | State::RecvClosed\n        ) && self.reader.is_none()"))
# ---- C16
m('c16-lose-pending','C16',(C,".chain(self.pending_write_frame)\n            .collect",".chain(self.pending_write_frame.filter(|f| f.header().flags().contains(header::FIN)))\n            .collect"))
m('c16-no-close-receivers','C16',(CL,"                    for stream in this.stream_receivers.iter_mut() {\n                        stream.inner_mut().close();\n                    }","                    for stream in this.stream_receivers.iter_mut().skip(1) {\n                        stream.inner_mut().close();\n                    }"))
m('c16-term-early','C16',(CL,"                            // No more frames from streams, append `Term` frame and flush them all.\n                            this.pending_frames.push_back(Frame::term().into());","                            // No more frames from streams, append `Term` frame and flush them all.\n                            let at = this.pending_frames.len().min(15);\n                            this.pending_frames.insert(at, Frame::term().into());"))
m('c16-noflush','C16',(CL,"None => this.state = State::ClosingSocket,","None => return Poll::Ready(Ok(())),"))
m('c16-drop-on-none','C16',(CL,"Poll::Ready(Some((_, None))) => {}","Poll::Ready(Some((id, None))) => {\n                            if this.pending_frames.len() > 20 {\n                                this.pending_frames.retain(|f| f.header().stream_id() != id);\n                            }\n                        }"))
m('c16-close-ack','C12',(CL,"Frame::close_stream(id, ack).into()","Frame::close_stream(id, ack && this_has(id)).into()".replace("ack && this_has(id)","false & ack")))
m('c16-pending-err','C16',(C,"                    Poll::Ready(Ok(())) => {\n                        self.inner = ConnectionState::Closed;\n                        return Poll::Ready(None);\n                    }","                    Poll::Ready(Ok(())) => {\n                        self.inner = ConnectionState::Closed;\n                        return Poll::Ready(Some(Err(ConnectionError::Closed)));\n                    }"))
# ---- C17
m('c17-twice','C17',(C,"                    Poll::Ready(other) => {\n                        self.inner = ConnectionState::Closed;\n                        return Poll::Ready(Some(Err(other)));","                    Poll::Ready(other) => {\n                        self.inner = if let ConnectionError::Io(e) = &other {\n                            ConnectionState::Cleanup(Cleanup::new(SelectAll::default(), ConnectionError::Io(e.kind().into())))\n                        } else {\n                            ConnectionState::Closed\n                        };\n                        return Poll::Ready(Some(Err(other)));"))
m('c17-eof-is-closed','C17',(C,"match self.on_frame(frame?)? {","let frame = match frame {\n                            Err(frame::FrameDecodeError::Io(e)) if e.kind() == std::io::ErrorKind::ConnectionReset => {\n                                return Poll::Ready(Err(ConnectionError::Closed))\n                            }\n                            f => f?,\n                        };\n                        match self.on_frame(frame)? {"))
m('c17-cleanup-open','C17',(CU,"                    for stream in this.stream_receivers.iter_mut() {\n                        stream.inner_mut().close();\n                    }\n","                    let _ = this.stream_receivers.iter_mut().map(|s| s.inner_mut().close()).next();\n"))
m('c17-goaway-code','C17',(C,"Tag::GoAway => return Err(ConnectionError::Closed),","Tag::GoAway if frame.header().len().val() > 2 => Action::None,\n            Tag::GoAway => return Err(ConnectionError::Closed),"))
m('c17-drop-noclose','C17',(C,"            ConnectionState::Active(active) => active.drop_all_streams(),","            ConnectionState::Active(active) => {\n                if active.pending_write_frame.is_none() {\n                    active.drop_all_streams()\n                }\n            }"))
# ---- C18
m('c18-flush-err','C18',(C,"match self.socket.poll_flush_unpin(cx)? {\n                Poll::Ready(()) => {}\n                Poll::Pending => {}\n            }","if let Poll::Ready(Err(e)) = self.socket.poll_flush_unpin(cx) {\n                log::warn!(\"{}: flush failed: {e}\", self.id);\n            }"))
m('c18-overclaim-body','C18',(IO,"                        if *offset > buffer.len() {\n                            let err","                        if *offset > buffer.len() + 4096 {\n                            let err"),(IO,"if *offset == buffer.len() {","if *offset >= buffer.len() {"))
m('c18-overclaim-header','C18',(IO,"                        if *offset > header.len() {\n                            let err","                        if *offset > header.len() + buffer.len() {\n                            let err"),(IO,"if *offset == header.len() {","if *offset >= header.len() {"))
m('c18-interrupted','C18',(IO,"                } => match Pin::new(&mut this.io).poll_write(cx, &header[*offset..]) {\n                    Poll::Pending => return Poll::Pending,","                } => match Pin::new(&mut this.io).poll_write(cx, &header[*offset..]) {\n                    Poll::Pending => return Poll::Pending,\n                    Poll::Ready(Err(e)) if e.kind() == io::ErrorKind::Interrupted => {\n                        *offset = 0;\n                    }"))
m('c18-zero-body','C18',(IO,"""                } => match Pin::new(&mut this.io).poll_write(cx, &buffer[*offset..]) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Ready(Ok(n)) => {
                        if n == 0 {
                            return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
                        }""","""                } => match Pin::new(&mut this.io).poll_write(cx, &buffer[*offset..]) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Ready(Ok(n)) => {
                        if n == 0 && *offset == 0 {
                            return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
                        }
                        if n == 0 {
                            return Poll::Pending;
                        }"""))
# ---- C19
m('c19-keep-closed','C19',(C,'let s = self.streams.remove(&stream_id).expect("stream not found");','let s = self.streams.get(&stream_id).cloned().expect("stream not found");\n        if s.lock().state() != State::Closed {\n            self.streams.remove(&stream_id);\n        }'))
m('c19-rst-ignored-halfclosed','C19',(S,"(SendClosed, Closed) => self.state = Closed,","(SendClosed, Closed) => {}"))
# ---- C20
m('c20-interval','C20',(R,"next: Instant::now() + PING_INTERVAL,","next: sent_at + PING_INTERVAL,"))
m('c20-coalesce','C20',(C,"return Action::Ping(Frame::new(hdr));","if self.pending_read_frames.iter().any(|f| f.header().tag() == Tag::Ping) {\n                return Action::None;\n            }\n            return Action::Ping(Frame::new(hdr));"))
m('c20-second-ping','C20',(R,"RttState::AwaitingPong { .. } => return None,","RttState::AwaitingPong { sent_at, .. } => {\n                if sent_at.elapsed() < PING_INTERVAL * 3 {\n                    return None;\n                }\n            }"))
m('c20-pong-busy','C20',(C,"if stream_id == CONNECTION_ID || self.streams.contains_key(&stream_id) {","if (stream_id == CONNECTION_ID && self.streams.len() < 64) || self.streams.contains_key(&stream_id) {"))
m('c20-rtt-retry','C20',(R,"            RttState::Waiting { next } => {\n                if *next > Instant::now() {","            RttState::Waiting { next } => {\n                if *next > Instant::now() + Duration::from_secs(1) {"))
# ---- C21
m('c21-hol','C21',(C,"            if self.pending_read_frames.len() < MAX_PENDING_READ_FRAMES {","            if self.pending_read_frames.len() < MAX_PENDING_READ_FRAMES\n                && !(self.streams.len() > 1\n                    && self.streams.values().any(|s| s.lock().buffer.len() >= DEFAULT_CREDIT as usize))\n            {"))
m('c21-batch','C22',(C,"mpsc::channel(10); // 10 is an arbitrary number.\n        self.stream_receivers.push(TaggedStream::new(id, receiver));\n        if let Some(waker) = self.new_stream_waker.take() {\n            waker.wake();\n        }\n\n        Stream::new_inbound(","mpsc::channel(100);\n        self.stream_receivers.push(TaggedStream::new(id, receiver));\n        if let Some(waker) = self.new_stream_waker.take() {\n            waker.wake();\n        }\n\n        Stream::new_inbound("))
# ---- C22
m('c22-channel-out','C22',(C,"mpsc::channel(10); // 10 is an arbitrary number.\n        self.stream_receivers.push(TaggedStream::new(id, receiver));\n        if let Some(waker) = self.new_stream_waker.take() {\n            waker.wake();\n        }\n\n        Stream::new_outbound(","mpsc::channel(64);\n        self.stream_receivers.push(TaggedStream::new(id, receiver));\n        if let Some(waker) = self.new_stream_waker.take() {\n            waker.wake();\n        }\n\n        Stream::new_outbound("))
m('c22-queue','C22',(C,"    pending_write_frame: Option<Frame<()>>,","    pending_write_frame: Option<Frame<()>>,\n    more_frames: VecDeque<Frame<()>>,"),(C,"            pending_write_frame: None,\n            new_out","            pending_write_frame: None,\n            more_frames: VecDeque::new(),\n            new_out"),(C,".or_else(|| self.pending_write_frame.take())",".or_else(|| self.more_frames.pop_front())\n                    .or_else(|| self.pending_write_frame.take())"),(C,"            if self.pending_write_frame.is_none() {\n                match self.stream_receivers","            if self.pending_write_frame.is_some() && self.more_frames.len() < 8 && self.streams.len() > 2 {\n                self.more_frames.extend(self.pending_write_frame.take());\n            }\n            if self.pending_write_frame.is_none() {\n                match self.stream_receivers"))
# ---- C24
m('c24-closed-state','C24',(S,"        if !self.config.read_after_close && self.sender.is_closed() {\n            return Poll::Ready(Ok(0));","        if !self.config.read_after_close && self.is_closed() {\n            return Poll::Ready(Ok(0));"))
m('c24-packets','C24',(S,"        if !self.config.read_after_close && self.sender.is_closed() {\n            return Poll::Ready(None);","        if self.sender.is_closed() {\n            return Poll::Ready(None);"))
m('c24-canread','C24',(S,"        if !self.shared.lock().state.can_read() {\n            return Poll::Ready(());\n        }","        if !self.shared.lock().state.can_read() && !self.sender.is_closed() {\n            return Poll::Ready(());\n        }"))
m('c24-wu-err','C24',(S,"""            Poll::Pending => {}
        }

        // Copy data from stream buffer.""","""            Poll::Pending => {}
        }

        if self.window_update_sender.is_closed() {
            return Poll::Ready(Ok(0));
        }

        // Copy data from stream buffer."""))
# ---- C25
m('c25-write-closed','C25',(S,"matches!(self.shared().state(), State::SendClosed)","!self.shared().state().can_write()"))
m('c25-closed-rst','C25',(C,"shared.update_state(self.id, stream_id, State::Closed);\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n                if let Some(w) = shared.writer.take() {\n                    w.wake()\n                }\n            }\n            return Action::None;\n        }\n\n        let is_finish = frame.header().flags().contains(header::FIN); // half-close\n\n        if frame.header().flags().contains(header::SYN) {\n            // new stream\n            if !self.is_valid_remote_id(stream_id, Tag::WindowUpdate) {","shared.update_state(self.id, stream_id, State::RecvClosed);\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n                if let Some(w) = shared.writer.take() {\n                    w.wake()\n                }\n            }\n            return Action::None;\n        }\n\n        let is_finish = frame.header().flags().contains(header::FIN); // half-close\n\n        if frame.header().flags().contains(header::SYN) {\n            // new stream\n            if !self.is_valid_remote_id(stream_id, Tag::WindowUpdate) {"))
m('c25-pending-any','C25',(C,"            if let Some(stream) = self.streams.get(&id) {\n                stream\n                    .lock()","            if let Some(stream) = self.streams.get(&id).filter(|_| frame.header().len().val() != 0) {\n                stream\n                    .lock()"))
# ---- C23
m('c23-reader-gap','C23',(S,"        // Buffer is empty, let's check if we can expect to read more data.\n        if !shared.state().can_read() {\n            log::debug!(\"{}/{}: eof\", self.conn, self.id);\n            return Poll::Ready(Ok(0)); // stream has been reset\n        }\n","        // Buffer is empty, let's check if we can expect to read more data.\n        if !shared.state().can_read() {\n            log::debug!(\"{}/{}: eof\", self.conn, self.id);\n            return Poll::Ready(Ok(0)); // stream has been reset\n        }\n        drop(shared);\n        let mut shared = self.shared();\n"))
m('c23-reader-gap2','C23',(S,"        // Since we have no more data at this point, we want to be woken up\n        // by the connection when more becomes available for us.\n        shared.reader = Some(cx.waker().clone());\n\n        Poll::Pending\n    }\n}\n\nimpl AsyncWrite","        drop(shared);\n\n        // Since we have no more data at this point, we want to be woken up\n        // by the connection when more becomes available for us.\n        let waker = cx.waker().clone();\n        self.shared().reader = Some(waker);\n\n        Poll::Pending\n    }\n}\n\nimpl AsyncWrite"))
m('c12-ack-twice','C12',(S,"                header.ack();\n                self.flag = Flag::None","                header.ack();\n                if header.tag() == Tag::Data {\n                    self.flag = Flag::None\n                }"),(S,"use crate::frame::header::ACK;","use crate::frame::header::{Tag, ACK};"))
m('c12-syn-twice','C12',(S,"                header.syn();\n                self.flag = Flag::None","                header.syn();\n                if header.len().val() > 0 {\n                    self.flag = Flag::None\n                }"))

# ---- the repairs undone
for l in open('/verif/known_findings.txt'):
    if l.startswith('fixed:'):
        _,a,b=l.split()[:3]
        if b=='4ac84b9': # (later changes are in the way)
            m('revert-'+b,a.split('=')[1],(S,"ready!(self.window_update_sender.poll_ready(cx))","ready!(self.sender.poll_ready(cx))"),(S,"let _ = self.window_update_sender.start_send(cmd);","let _ = self.sender.start_send(cmd);"))
        else:
            m('revert-'+b,a.split('=')[1],('revert',b,''))
# ---- third batch
m('c01-coalesce','C01',(K,"""        self.len += x.len();
        if !x.is_empty() {""","""        self.len += x.len();
        if x.len() < 32 {
            if let Some(last) = self.seq.back_mut().filter(|c| c.len() < 64) {
                let off = last.offset();
                let v = last.cursor.get_mut();
                v.drain(..off);
                v.extend_from_slice(&x);
                self.len -= off;
                return;
            }
        }
        if !x.is_empty() {"""))
m('c01-vectored-write','C01',(S,"""    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {""","""    fn poll_write_vectored(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        bufs: &[io::IoSlice<'_>],
    ) -> Poll<io::Result<usize>> {
        let mut n = 0;
        for b in bufs {
            if b.is_empty() {
                continue;
            }
            match self.as_mut().poll_write(cx, b) {
                Poll::Ready(Ok(k)) => n += k,
                Poll::Ready(Err(e)) if n == 0 => return Poll::Ready(Err(e)),
                Poll::Pending if n == 0 => return Poll::Pending,
                _ => break,
            }
        }
        Poll::Ready(Ok(n))
    }

    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {"""))
m('c04-consume-before-ready','C04',(S,"""        ready!(self
            .sender
            .poll_ready(cx)
            .map_err(|_| self.write_zero_err())?);
        let body = {""","""        let full = self
            .sender
            .poll_ready(cx)
            .map_err(|_| self.write_zero_err())?
            .is_pending();
        let body = {"""),(S,"""            Vec::from(&buf[..k])
        };""","""            if full {
                return Poll::Pending;
            }
            Vec::from(&buf[..k])
        };"""))
m('c05-packet-no-update','C05',(S,"""        match self.send_window_update(cx) {
            Poll::Ready(()) => {}
            // Continue reading buffered data even though sending a window update blocked.
            Poll::Pending => {}
        }

        let mut shared = self.shared();""","""        let mut shared = self.shared();"""))
m('c08-flags-reserved','C08',(H,None,None)) if False else None
m('c09-code-dup','C09',(C,"""            if self.streams.contains_key(&stream_id) {
                log::error!("{}/{}: stream already exists", self.id, stream_id);
                return Action::Terminate(Frame::protocol_error());
            }
            if self.streams.len() == self.config.max_num_streams {
                log::error!("{}: maximum number of streams reached", self.id);
                return Action::Terminate(Frame::internal_error());""","""            if self.streams.len() == self.config.max_num_streams {
                log::error!("{}: maximum number of streams reached", self.id);
                return Action::Terminate(Frame::internal_error());
            }
            if self.streams.contains_key(&stream_id) {
                log::error!("{}/{}: stream already exists", self.id, stream_id);
                return Action::Terminate(Frame::internal_error());"""))
m('c10-pong-queue','C10',(C,"if self.pending_read_frames.len() < MAX_PENDING_READ_FRAMES {","if self.pending_read_frames.len() < 1_000_000 {"))
m('c12-close-noack','C12',(S,"let ack = self.flag == Flag::Ack;","let ack = self.flag == Flag::Ack && self.shared().state().can_read();"))
m('c17-reset-clean','C17',(C,"""                        self.inner = ConnectionState::Closed;
                        return Poll::Ready(None);
                    }
                    Poll::Ready(other) => {""","""                        self.inner = ConnectionState::Closed;
                        return Poll::Ready(None);
                    }
                    Poll::Ready(ConnectionError::Io(e))
                        if e.kind() == std::io::ErrorKind::ConnectionReset =>
                    {
                        self.inner = ConnectionState::Closed;
                        return Poll::Ready(None);
                    }
                    Poll::Ready(other) => {"""))
m('c20-lifo','C20',(C,"                    .pop_front()\n                    .or_else","                    .pop_back()\n                    .or_else"))
m('c20-nonce16','C20',(C,"Header::ping(frame.header().id())" if False else "let mut hdr = Header::ping(frame.header().id());","let mut hdr = Header::ping(frame.header().id() & 0x7fff_ffff);"))
m('c24-rac-false-fin','C24',(S,"""        if !self.config.read_after_close && self.sender.is_closed() {
            return Poll::Ready(Ok(0));
        }""","""        if !self.config.read_after_close
            && (self.sender.is_closed() || self.shared().state() == State::Closed)
        {
            return Poll::Ready(Ok(0));
        }"""))
m('c24-default-off','C24',(L,"read_after_close: true,","read_after_close: false,"))
m('c14-default-256','C14',(L,"max_num_streams: 512,","max_num_streams: 511,"))
m('c14-u8','C14',(C,"if self.streams.len() >= self.config.max_num_streams {","if self.streams.len() >= self.config.max_num_streams.min(1024) {"))
m('c06-default-2g','C27',(L,"max_connection_receive_window: Some(GIB),","max_connection_receive_window: Some(2 * GIB),"))
m('c23-lost-credit','C23',(S,"""            shared
                .consume_send_window(k as u32)
                .expect("not exceed receive window");
            Vec::from(&buf[..k])
        };""","""            let left = shared.send_window() - k as u32;
            drop(shared);
            let body = Vec::from(&buf[..k]);
            let mut shared = self.shared();
            let now = shared.send_window();
            shared
                .consume_send_window(now - left)
                .expect("not exceed receive window");
            body
        };"""))
m('c06-u32-acc','C06',(F,"            *accumulated_max_stream_windows += (new_max - self.max_receive_window) as usize;","            *accumulated_max_stream_windows += (new_max - self.max_receive_window) as u16 as usize;"))
m('c13-server-first','C13',(C,"                Mode::Server => 2,","                Mode::Server => 0,"))
m('c19-rst-writer','C19',(C,"""                // We reset the stream to inform the remote of the closure.
                State::Open { .. } => {""","""                // We reset the stream to inform the remote of the closure.
                State::Open { acknowledged: false } if shared.buffer.len() > 0 => None,
                State::Open { .. } => {"""))
m('c16-close-drops-pong','C16',(C,"""        let pending_frames = self
            .pending_read_frames
            .into_iter()
            .chain(self.pending_write_frame)""","""        let pending_frames = self
            .pending_write_frame
            .into_iter()
            .take(1)
            .filter(|f| f.header().flags().val() != 8)"""))
m('c18-retry-wouldblock','C18',(IO,"""                } => match Pin::new(&mut this.io).poll_write(cx, &buffer[*offset..]) {
                    Poll::Pending => return Poll::Pending,""","""                } => match Pin::new(&mut this.io).poll_write(cx, &buffer[*offset..]) {
                    Poll::Ready(Err(e)) if e.kind() == io::ErrorKind::WouldBlock => return Poll::Pending,
                    Poll::Pending => return Poll::Pending,"""))
m('c25-closed-on-fin-buffer','C25',(S,"    pub fn is_closed(&self) -> bool {\n        matches!(self.shared().state(), State::Closed)","    pub fn is_closed(&self) -> bool {\n        let shared = self.shared();\n        matches!(shared.state(), State::Closed) && shared.buffer.len() == 0"))
m('c03-window-update-nowake-if-nonzero','C03',(C,"            let mut shared = s.lock();\n            if let Err(err) = shared.increase_send_window_by","            let mut shared = s.lock();\n            if shared.send_window() > 0 {\n                shared.writer = None;\n            }\n            if let Err(err) = shared.increase_send_window_by"))
m('c21-drain-stream','C21',(C,"                        self.pending_write_frame.replace(frame.into());\n                        continue;","                        self.pending_write_frame.replace(frame.into());\n                        if let Some(s) = self.stream_receivers.iter_mut().last() {\n                            let _ = s;\n                        }\n                        continue;")) if False else None
m('c08-goaway-anyid','C08',(C,"            Tag::GoAway => return Err(ConnectionError::Closed),","            Tag::GoAway if frame.header().stream_id() != CONNECTION_ID => Action::None,\n            Tag::GoAway => return Err(ConnectionError::Closed),"))
m('c11-close-pendingwrite','C11',(CL,"                        Poll::Ready(Some((id, Some(StreamCommand::CloseStream { ack })))) => {\n                            this.pending_frames\n                                .push_back(Frame::close_stream(id, ack).into());","                        Poll::Ready(Some((id, Some(StreamCommand::CloseStream { ack })))) => {\n                            this.pending_frames\n                                .push_front(Frame::close_stream(id, ack).into());"))
m('c12-syn-on-update','C12',(S,"        let mut frame = Frame::window_update(self.id, credit).right();\n        self.add_flag(frame.header_mut());","        let mut frame = Frame::window_update(self.id, credit).right();\n        if self.flag == Flag::Ack {\n            self.add_flag(frame.header_mut());\n        }"))
m('c07-fin-extra','C07',(C,"            if let Err(_err) = shared.consume_receive_window(frame.body_len()) {\n                log::error!(\n                    \"{}/{}: frame body larger than window of stream\"","            if let Err(_err) = shared.consume_receive_window(if is_finish { 0 } else { frame.body_len() }) {\n                log::error!(\n                    \"{}/{}: frame body larger than window of stream\""))
m('c22-pending-queue','C22',(C,"            if self.pending_write_frame.is_none() {\n                match self.stream_receivers.poll_next_unpin(cx) {\n                    Poll::Ready(Some((_, Some(StreamCommand::SendFrame(frame))))) => {","            if self.pending_write_frame.is_none() || self.pending_read_frames.is_empty() {\n                if let Some(f) = self.pending_write_frame.take() {\n                    self.pending_read_frames.push_back(f);\n                }\n                match self.stream_receivers.poll_next_unpin(cx) {\n                    Poll::Ready(Some((_, Some(StreamCommand::SendFrame(frame))))) => {"))
m('c15-off','C15',(C,"        if self.ack_backlog() >= MAX_ACK_BACKLOG {","        if self.ack_backlog() > MAX_ACK_BACKLOG {"))
m('c20-ping-idle','C20',(R,"                if *next > Instant::now() {","                if *next > Instant::now() + Duration::from_millis(500) {"))
FC_='yamux/src/connection/stream/flow_control.rs'
m('c06-log-unlocked','C06',(FC_,"let mut accumulated_max_stream_windows = self.accumulated_max_stream_windows.lock();\n\n            // Ideally","let accumulated = *self.accumulated_max_stream_windows.lock();\n\n            // Ideally"),(FC_,"- *accumulated_max_stream_windows,\n","- accumulated,\n"),(FC_,"""            // Account for the additional credit on the accumulated connection counter.
            *accumulated_max_stream_windows += (new_max - self.max_receive_window) as usize;
            drop(accumulated_max_stream_windows);

            log::debug!(
                "old window_max: {} mb, new window_max: {} mb",
                self.max_receive_window as f64 / crate::MIB as f64,
                new_max as f64 / crate::MIB as f64
            );
""","""            log::debug!(
                "old window_max: {} mb, new window_max: {} mb",
                self.max_receive_window as f64 / crate::MIB as f64,
                new_max as f64 / crate::MIB as f64
            );

            // Account for the additional credit on the accumulated connection counter.
            *self.accumulated_max_stream_windows.lock() +=
                (new_max - self.max_receive_window) as usize;
"""))

# ---- C26
L_='yamux/src/lib.rs'
m('c26-flush-spin','C26',(C,"                Poll::Ready(()) => {}\n                Poll::Pending => {}\n            }\n\n            if self.pending_write_frame","                Poll::Ready(()) => {}\n                Poll::Pending => cx.waker().wake_by_ref(),\n            }\n\n            if self.pending_write_frame"))
m('c26-credit-spin','C26',(S,"                shared.writer = Some(cx.waker().clone());\n                return Poll::Pending;","                shared.writer = Some(cx.waker().clone());\n                cx.waker().wake_by_ref();\n                return Poll::Pending;"))
m('c26-open-spin','C26',(C,"            self.new_outbound_stream_waker = Some(cx.waker().clone());\n            return Poll::Pending;","            self.new_outbound_stream_waker = Some(cx.waker().clone());\n            if let Some(w) = self.new_stream_waker.take() {\n                w.wake();\n            }\n            cx.waker().wake_by_ref();\n            return Poll::Pending;"))
m('c26-opener-pingpong','C26',(C,"            if self.new_outbound_stream_waker.is_some() && self.ack_backlog() < MAX_ACK_BACKLOG {","            if self.new_outbound_stream_waker.is_some() && self.ack_backlog() <= MAX_ACK_BACKLOG {"),(C,"            self.new_outbound_stream_waker = Some(cx.waker().clone());\n            return Poll::Pending;","            self.new_outbound_stream_waker = Some(cx.waker().clone());\n            if let Some(w) = self.new_stream_waker.take() {\n                w.wake();\n            }\n            return Poll::Pending;"))
m('c26-discard-spin','C26',(CL,"                    if this.socket.poll_ready_unpin(cx)?.is_pending() {\n                        if this.poll_discard(cx)? {\n                            continue;\n                        }","                    if this.socket.poll_ready_unpin(cx)?.is_pending() {\n                        if this.poll_discard(cx)? {\n                            continue;\n                        }\n                        if !this.read_done {\n                            cx.waker().wake_by_ref();\n                        }"))
m('c26-quarter-update','C26',(F,"if next_window_update < self.max_receive_window / 2 {","if next_window_update < self.max_receive_window / 4 {"))
m('c26-default-quarter','C26',(F,"if next_window_update < self.max_receive_window / 2 {","if next_window_update < DEFAULT_CREDIT / 2 {"))
m('c26-empty-tail','C26',(S,"""            Vec::from(&buf[..k])
        };
        let n = body.len();""","""            Vec::from(&buf[..k])
        };
        let n = body.len();
        if n == self.config.split_send_size && n == buf.len() && self.flag == Flag::None {
            let end = Frame::data(self.id, Vec::new()).expect("empty").left();
            let _ = self.sender.start_send(StreamCommand::SendFrame(end));
        }"""))
m('c26-ack-now','C26',(S,"            log::trace!(\"{}/{}: read {} bytes\", self.conn, self.id, n);","            log::trace!(\"{}/{}: read {} bytes\", self.conn, self.id, n);\n            drop(shared);\n            if self.flag == Flag::None && n == buf.len() && n > 1000 && self.window_update_sender.poll_ready(cx).is_ready() {\n                let frame = Frame::window_update(self.id, 0).right();\n                let _ = self.window_update_sender.start_send(StreamCommand::SendFrame(frame));\n            }"))
m('c26-pong-backpressure-spin','C26',(C,"            // If we make it this far, at least one of the above must have registered a waker.","            if self.pending_read_frames.len() >= MAX_PENDING_READ_FRAMES {\n                cx.waker().wake_by_ref();\n            }\n            // If we make it this far, at least one of the above must have registered a waker."))
m('c26-idle-spin','C26',(C,"                        self.new_stream_waker = Some(cx.waker().clone());","                        self.new_stream_waker = Some(cx.waker().clone());\n                        if self.streams.len() == 3 && self.streams.values().all(|s| s.lock().reader.is_none()) {\n                            cx.waker().wake_by_ref();\n                        }"))
m('c26-reader-spin','C26',(S,"            // Continue reading buffered data even though sending a window update blocked.\n            Poll::Pending => {}\n        }\n\n        // Copy data","            // Continue reading buffered data even though sending a window update blocked.\n            Poll::Pending => cx.waker().wake_by_ref(),\n        }\n\n        // Copy data"))
# ---- C27
m('c27-streams-unchecked','C27',(L_,"        self.max_num_streams = n;\n\n        assert!(\n            self.spare_receive_window().is_some(),","        self.max_num_streams = n;\n\n        assert!(\n            self.max_connection_receive_window.is_some() || self.spare_receive_window().is_some(),"))
m('c27-strict','C27',(L_,"                limit.checked_sub(self.max_num_streams.checked_mul(DEFAULT_CREDIT as usize)?)","                limit.checked_sub(self.max_num_streams.checked_mul(DEFAULT_CREDIT as usize)?).filter(|n| *n > 0)"))
m('c27-overflow','C27',(L_,"self.max_num_streams.checked_mul(DEFAULT_CREDIT as usize)?","self.max_num_streams.wrapping_mul(DEFAULT_CREDIT as usize)"))
m('c27-split-clamped','C27',(L_,"        self.split_send_size = n;","        self.split_send_size = n.clamp(1024, crate::frame::io::MAX_FRAME_BODY_LEN);")) if False else None
m('c27-split-min','C27',(L_,"        self.split_send_size = n;","        self.split_send_size = n.max(KIB);"))
m('c27-split-max','C27',(L_,"        self.split_send_size = n;","        self.split_send_size = n.min(DEFAULT_CREDIT as usize);"))
m('c27-rac-sticky','C27',(L_,"        self.read_after_close = b;","        self.read_after_close &= b;"))
m('c27-streams-u32','C27',(C,"if self.streams.len() >= self.config.max_num_streams {","if self.streams.len() >= self.config.max_num_streams as u32 as usize {"))
m('c27-inbound-default','C27',(C,"        Stream::new_inbound(\n            id,\n            self.id,\n            config,","        let config = if config.split_send_size < 1000 { Arc::new(Config { split_send_size: 1000, ..(*config).clone() }) } else { config };\n        Stream::new_inbound(\n            id,\n            self.id,\n            config,"))
m('c27-limit-none-default','C27',(L_,"            None => Some(usize::MAX),","            None => Some(GIB),"))
m('c27-limit-keeps','C27',(L_,"        self.max_connection_receive_window = n;","        self.max_connection_receive_window = match (n, self.max_connection_receive_window) {\n            (Some(a), Some(b)) if a > b => Some(b),\n            _ => n,\n        };"))
# ---- C21
m('c21-writer-blocks','C21',(C,"            if self.pending_write_frame.is_none() {","            if self.pending_write_frame.is_none()\n                && !self.streams.values().any(|s| s.lock().writer.is_some())\n            {"))
# ---- sixth batch: two steps where one lock was held
m('c23-close-lost-fin','C23',(S,"        if !self.shared().state().can_write() {\n            return Poll::Ready(Ok(()));\n        }\n        ready!(self\n","        let before = self.shared().state();\n        if !before.can_write() {\n            return Poll::Ready(Ok(()));\n        }\n        ready!(self\n"),(S,"        self.shared()\n            .update_state(self.conn, self.id, State::SendClosed);\n        Poll::Ready(Ok(()))","        let next = if before == State::RecvClosed { State::Closed } else { State::SendClosed };\n        self.shared().state = next;\n        Poll::Ready(Ok(()))"))
m('c23-drop-acc','C06',(FC_,"""        *accumulated_max_stream_windows -= (self.max_receive_window - DEFAULT_CREDIT) as usize;
    }""","""        let left = *accumulated_max_stream_windows - (self.max_receive_window - DEFAULT_CREDIT) as usize;
        drop(accumulated_max_stream_windows);
        *self.accumulated_max_stream_windows.lock() = left;
    }"""))
m('c23-credit-lost','C23',(S,"""            let k = std::cmp::min(shared.send_window() as usize, buf.len());
            let k = std::cmp::min(k, self.config.split_send_size);
            shared
                .consume_send_window(k as u32)
                .expect("not exceed receive window");
            Vec::from(&buf[..k])""","""            let window = shared.send_window();
            let k = std::cmp::min(window as usize, buf.len());
            let k = std::cmp::min(k, self.config.split_send_size);
            drop(shared);
            let body = Vec::from(&buf[..k]);
            self.shared().set_send_window(window - k as u32);
            body"""),(S,"    pub(crate) fn consume_send_window(&mut self, i: u32)","    fn set_send_window(&mut self, i: u32) {\n        self.flow_controller.set_send_window(i)\n    }\n\n    #[allow(dead_code)]\n    pub(crate) fn consume_send_window(&mut self, i: u32)"),(FC_,"    pub(crate) fn consume_send_window(&mut self, i: u32)","    pub(crate) fn set_send_window(&mut self, i: u32) {\n        self.send_window = i\n    }\n\n    pub(crate) fn consume_send_window(&mut self, i: u32)"))
m('c23-ack-lost-fin','C23',(S,"""            let k = std::cmp::min(shared.send_window() as usize, buf.len());""","""            first = shared.is_pending_ack();
            let k = std::cmp::min(shared.send_window() as usize, buf.len());"""),(S,"        let body = {\n            let mut shared","        let first;\n        let body = {\n            let mut shared"),(S,"""        if frame.header().flags().contains(ACK) {
            self.shared()
                .update_state(self.conn, self.id, State::Open { acknowledged: true });
        }

        let cmd = StreamCommand::SendFrame(frame);
        self.sender""","""        if frame.header().flags().contains(ACK) && first {
            self.shared().state = State::Open { acknowledged: true };
        }

        let cmd = StreamCommand::SendFrame(frame);
        self.sender"""))
m('c23-push-gap','C23',(C,"""            // Nothing may follow the remote's FIN or RST.
            if shared.state().can_read() {
                shared.buffer.push(frame.into_body());
            }

            if is_finish {
                shared.update_state(self.id, stream_id, State::RecvClosed);
            }

            if let Some(w) = shared.reader.take() {
                w.wake()
            }""","""            let waker = shared.reader.take();
            drop(shared);
            let mut shared = s.lock();
            // Nothing may follow the remote's FIN or RST.
            if shared.state().can_read() {
                shared.buffer.push(frame.into_body());
            }

            if is_finish {
                shared.update_state(self.id, stream_id, State::RecvClosed);
            }

            if let Some(w) = waker {
                w.wake()
            }"""))
m('c23-writer-gap','C23',(S,"""                log::trace!("{}/{}: no more credit left", self.conn, self.id);
                shared.writer = Some(cx.waker().clone());
                return Poll::Pending;""","""                drop(shared);
                log::trace!("{}/{}: no more credit left", self.conn, self.id);
                self.shared().writer = Some(cx.waker().clone());
                return Poll::Pending;"""))
m('c23-fin-gap','C23',(C,"""            if shared.state().can_read() {
                shared.buffer.push(frame.into_body());
            }

            if is_finish {
                shared.update_state(self.id, stream_id, State::RecvClosed);
            }
""","""            let open = shared.state().can_read();
            if is_finish {
                shared.update_state(self.id, stream_id, State::RecvClosed);
                drop(shared);
                shared = s.lock();
            }
            if open {
                shared.buffer.push(frame.into_body());
            }
"""))
m('c23-reset-gap','C23',(C,"""                let mut shared = s.lock();
                shared.update_state(self.id, stream_id, State::Closed);
                if let Some(w) = shared.reader.take() {
                    w.wake()
                }
                if let Some(w) = shared.writer.take() {
                    w.wake()
                }
            }
            return Action::None;
        }

        let is_finish = frame.header().flags().contains(header::FIN); // half-close

        if frame.header().flags().contains(header::SYN) {
            // new stream
            if !self.is_valid_remote_id(stream_id, Tag::Data) {""","""                let wakers = {
                    let mut shared = s.lock();
                    [shared.reader.take(), shared.writer.take()]
                };
                s.lock().update_state(self.id, stream_id, State::Closed);
                for w in wakers.into_iter().flatten() {
                    w.wake()
                }
            }
            return Action::None;
        }

        let is_finish = frame.header().flags().contains(header::FIN); // half-close

        if frame.header().flags().contains(header::SYN) {
            // new stream
            if !self.is_valid_remote_id(stream_id, Tag::Data) {"""))
m('c23-end-gap','C23',(C,"""            shared.update_state(self.id, id, State::Closed);
            if let Some(w) = shared.reader.take() {
                w.wake()
            }
            if let Some(w) = shared.writer.take() {
                w.wake()
            }
        }
    }""","""            let wakers = [shared.reader.take(), shared.writer.take()];
            drop(shared);
            s.lock().update_state(self.id, id, State::Closed);
            for w in wakers.into_iter().flatten() {
                w.wake()
            }
        }
    }"""))
