"""Makes a copy of /repo with many edits that keep the behaviour; all checks have to stay quiet on it.

    python3 tools/refactor.py /tmp/refa && MC_REPO=/tmp/refa ./check.sh C05 --no-evidence
"""
import shutil
import subprocess
import sys

EDITS = []


def edit(path, old, new):
    EDITS.append((path, old, new))


PF = "portforward.py"
edit(PF, '''    def _shutdown_read(self):
        """Shutdown reading."""
        with self._lock:
            if self.socket:
                try:
                    self.socket.shutdown(socket.SHUT_RD)
                except Exception:
                    pass

    def _shutdown_write(self):
        """Shutdown writing."""
        with self._lock:
            if self.socket:
                try:
                    self.socket.shutdown(socket.SHUT_WR)
                except Exception:
                    pass
''', '''    def _half_shutdown(self, how):
        """Shutdown one direction."""
        self._lock.acquire()
        try:
            sock = self.socket
            if not sock:
                return
            try:
                sock.shutdown(how)
            except Exception:
                pass
        finally:
            self._lock.release()

    def _shutdown_read(self):
        """Shutdown reading."""
        self._half_shutdown(socket.SHUT_RD)

    def _shutdown_write(self):
        """Shutdown writing."""
        self._half_shutdown(socket.SHUT_WR)
''')
edit(PF, '''                for _file_descriptor, event_mask in poll_result:
                    if event_mask & readable_events:
                        try:
                            # Reads *up to* BUFFER_SIZE bytes
                            data = self.socket.recv(CHUNK_SIZE)
                        except Exception:
                            log.exception("error in recv")
                            connected = False
                            break
                        else:
                            if data:
                                self.channel.write(data)
                                bytes_written += len(data)
                            else:
                                # No data means the socket has been closed
                                connected = False
                                break
                    elif event_mask & error_events:
                        # Socket has been closed in another thread, possibly due to
                        # m2m channel closing
                        connected = False
''', '''                for poll_entry in poll_result:
                    mask = poll_entry[1]
                    if not mask & readable_events:
                        if mask & error_events:
                            connected = False
                        continue
                    data = self._receive()
                    if not data:
                        connected = False
                        break
                    self.channel.write(data)
                    bytes_written = bytes_written + len(data)
''')
edit(PF, '''    def _connect(self):
        """Connect to a local''', '''    def _receive(self):
        """Data, or nothing if there will be no more."""
        try:
            return self.socket.recv(CHUNK_SIZE)
        except Exception:
            log.exception("error in recv")
            return None

    def _connect(self):
        """Connect to a local''')
edit(PF, '''                try:
                    for chunk in self.read_buffer:
                        self.socket.sendall(chunk)
''', '''                try:
                    index = 0
                    while index < len(self.read_buffer):
                        self.socket.sendall(self.read_buffer[index])
                        index += 1
''')
edit(PF, '''        try:
            with limiter():
                Connection(
                    limiter,
                    close_event=self.close_event,
                    channel=channel,
                    host_port=("127.0.0.1", device_port),
                ).start()
        except Exception as error:
            log.warning("unable to start portforard thread; %r", error)
            channel.write(SERVER_BUSY)
            channel.close()''', '''        target = ("127.0.0.1", device_port)

        def begin():
            connection = Connection(limiter, self.close_event, channel, target)
            connection.start()

        try:
            with limiter():
                begin()
        except Exception as error:
            self._refuse(channel, error)

    def _refuse(self, channel, error):
        log.warning("unable to start portforward thread; %r", error)
        for action in (lambda: channel.write(SERVER_BUSY), channel.close):
            action()''')
MM = "m2mmanager.py"
edit(MM, '''        self.processes[:] = [
            process for process in self.processes if not process.is_closed
        ]
''', '''        alive = []
        for process in self.processes:
            if process.is_closed:
                continue
            alive.append(process)
        self.processes = alive
''')
edit(MM, '''        action = data["action"]
        if action == "sync":
            self.client.sync()
        elif action == "open-terminal":
            port = data["port"]
            terminal_name = data["name"]
            size = data.get("size", None)
            self.open_terminal(terminal_name, port, size=size)
        elif action == "open-echo":
            port = data["port"]
            self.open_echo_service(port)
''', '''        action = data["action"]
        simple = {
            "sync": lambda: self.client.sync(),
            "open-terminal": lambda: self._instruct_terminal(data),
            "open-echo": lambda: self.open_echo_service(data["port"]),
        }
        if action in simple:
            simple[action]()
''')
edit(MM, '''    def open_terminal(self, name, port, size=None):''', '''    def _instruct_terminal(self, data):
        port, name = data["port"], data["name"]
        self.open_terminal(name, port, size=data.get("size"))

    def open_terminal(self, name, port, size=None):''')
WS = "m2m/wsclient.py"
edit(WS, '''        with self._lock:
            # Data may be spread across multiple / partial messages
            while self.deque and bytes_remaining:
                head = self.deque[0]
                read_bytes = min(bytes_remaining, len(head))
                incoming_bytes.append(head[:read_bytes])
                bytes_left = head[read_bytes:]
                bytes_remaining -= read_bytes
                if not bytes_left:
                    self.deque.popleft()
                else:
                    self.deque[0] = bytes_left
            if not self.deque:
                self._data_event.clear()
''', '''        with self._lock:
            buffered = self.deque
            while bytes_remaining and len(buffered):
                head = buffered.popleft()
                piece, rest = head[:bytes_remaining], head[bytes_remaining:]
                incoming_bytes.append(piece)
                bytes_remaining -= len(piece)
                if rest:
                    buffered.appendleft(rest)
            if len(buffered) == 0:
                self._data_event.clear()
''')
edit(WS, '''        if event.name == "ready":
            self.on_ready()
        elif event.name == "disconnected":
            self.on_disconnected()
        elif event.name == "binary":
            self.on_binary(event.data)
        elif event.name == "poll":
            self.sync_identity()
''', '''        name = event.name
        if name == "binary":
            self.on_binary(event.data)
            return
        handler = {
            "ready": self.on_ready,
            "disconnected": self.on_disconnected,
            "poll": self.sync_identity,
        }.get(name)
        if handler is not None:
            handler()
''')
edit(WS, '''        if channel_no not in self.channels:
            self.channels[channel_no] = Channel(self, channel_no)
        return self.channels[channel_no]
''', '''        try:
            return self.channels[channel_no]
        except KeyError:
            channel = Channel(self, channel_no)
            self.channels[channel_no] = channel
            return channel
''')
edit(WS, '''        if self.has_channel(channel_no):
            channel = self.get_channel(channel_no)
            channel.on_close()
            del self.channels[channel_no]
''', '''        if not self.has_channel(channel_no):
            return
        self.channels[channel_no].on_close()
        self.channels.pop(channel_no)
''')
edit(WS, '''        for channel in self.channels.values():
            channel.on_close()
        self.channels.clear()
''', '''        for number in list(self.channels):
            self.channels[number].on_close()
        self.channels.clear()
''')
edit(WS, '''        with self.callback_lock:
            outstanding = list(self.callbacks.values())
            self.callbacks.clear()
        for callbacks in outstanding:
            for callback in callbacks:
                try:
                    callback(None)
                except Exception:
                    log.exception("error clearing callback")
''', '''        self.callback_lock.acquire()
        try:
            outstanding = [c for callbacks in self.callbacks.values() for c in callbacks]
            self.callbacks.clear()
        finally:
            self.callback_lock.release()
        while outstanding:
            callback = outstanding.pop(0)
            try:
                callback(None)
            except Exception:
                log.exception("error clearing callback")
''')
edit(WS, '''        with self._lock:
            if not self.is_closed:
                self.client.channel_write(self.number, data)
''', '''        with self._lock:
            if self._closed:
                return
            self.client.channel_write(self.number, data)
''')
edit(WS, '''    def close(self, timeout=5):
        self.websocket.close()
        self._closed = True
        self.identity = None
''', '''    def close(self, timeout=5):
        self.websocket.close()
        self.identity = None
        self._closed = True
''')
RP = "m2m/remoteprocess.py"
edit(RP, '''        control_type = control.get("type", None)
        if control_type == "window_resize":
            size = control["size"]
            log.debug("resize terminal to {} X {}".format(*size))
            self.resize_terminal(size)
        else:
            log.warning("unknown control packet {}".format(control_type))
''', '''        if control.get("type", None) != "window_resize":
            log.warning("unknown control packet")
            return
        columns, rows = size = control["size"]
        log.debug("resize terminal to {} X {}".format(columns, rows))
        self.resize_terminal(size)
''')
edit(RP, '''        with self._lock:
            hang_up = not self._hung_up and self.pid is not None
            if hang_up:
                self._hung_up = True
        if hang_up:
            log.debug("sending SIGHUP to %r", self)
            os.kill(self.pid, signal.SIGHUP)
            try:
                wait_thread = PidWaitThread(self.command, self.pid)
                wait_thread.start()
            except Exception as error:
                log.warning("pid wait thread failed to launch; %s", error)
''', '''        with self._lock:
            if self._hung_up or self.pid is None:
                return
            self._hung_up = True
            pid = self.pid
        os.kill(pid, signal.SIGHUP)
        log.debug("sent SIGHUP to %r", self)
        self._wait_for(pid)

    def _wait_for(self, pid):
        try:
            PidWaitThread(self.command, pid).start()
        except Exception as error:
            log.warning("pid wait thread failed to launch; %s", error)
''')
CS = "m2m/commandservice.py"
edit(CS, '''            for _ in range(20):
                if process.poll() is not None or channel.is_closed:
                    break
                time.sleep(0.05)
''', '''            self._await_exit(process, channel)
''')
edit(CS, '''    def _run_service(self, channel, command):
''', '''    @staticmethod
    def _await_exit(process, channel):
        tries = 0
        while tries < 20:
            if process.poll() is not None:
                return
            if channel.is_closed:
                return
            time.sleep(0.05)
            tries += 1

    def _run_service(self, channel, command):
''')
edit(CS, '''                for _file_descriptor, event_mask in poll_result:
                    if event_mask & readable_events:
                        if _file_descriptor == stdout_fh:
                            chunk = os.read(stdout_fh, CHUNK_SIZE)
                            if not chunk:
                                more_data = False
                                log.debug("%r EOF", self)
                                break
                            channel.write(chunk)
                            bytes_sent += len(chunk)
                        else:
                            chunk = os.read(stderr_fh, CHUNK_SIZE)
                            log.debug("%r [stderr] %r", self, chunk)
''', '''                for _file_descriptor, event_mask in poll_result:
                    if event_mask & readable_events:
                        chunk = os.read(_file_descriptor, CHUNK_SIZE)
                        if _file_descriptor != stdout_fh:
                            log.debug("%r [stderr] %r", self, chunk)
                            continue
                        if len(chunk) == 0:
                            more_data = False
                            break
                        bytes_sent += len(chunk)
                        channel.write(chunk)
''')
LI = "limiter.py"
edit(LI, '''        with self._lock:
            if self._value >= self._limit:
                log.warning("%r reached limit", self)
                raise LimitReached(
                    "{} limit ({}) reached".format(self.name, self._limit)
                )
            self._value += 1
            log.debug("%r incremented", self)
''', '''        with self._lock:
            available = self._limit - self._value
            if available > 0:
                self._value = self._value + 1
                log.debug("%r incremented", self)
                return
            log.warning("%r reached limit", self)
            raise LimitReached("{} limit ({}) reached".format(self.name, self._limit))
''')
RD = "remote_directory.py"
edit(RD, '''        if not validate_id(upload_id):
            raise IllegalPath("Upload id %r is illegal" % upload_id)
        try:
            temp_path = self.temp_path
            dir_path = os.path.join(temp_path, "dataplicity_remote")
            if not os.path.isdir(dir_path):
                os.mkdir(dir_path)
                log.debug("%r created %s", self, dir_path)
            snapshot_path = os.path.join(dir_path, upload_id)
            return snapshot_path
''', '''        if not validate_id(upload_id):
            raise IllegalPath("Upload id %r is illegal" % upload_id)
        try:
            dir_path = os.path.join(self.temp_path, "dataplicity_remote")
            self._ensure_directory(dir_path)
            return os.path.join(dir_path, upload_id)
''')
edit(RD, '''    def get_downloads_path(self):''', '''    def _ensure_directory(self, dir_path):
        if os.path.isdir(dir_path):
            return
        os.mkdir(dir_path)
        log.debug("%r created %s", self, dir_path)

    def get_downloads_path(self):''')
edit(RD, '''        if not os.path.isdir(dir_path):
            os.mkdir(dir_path)
            log.debug("%r created %s", self, dir_path)

        device_path = os.path.join(dir_path, id)

        # Create the file
        # This could fail for a variety of reasons
        # Exceptions must be caught by the caller
        with open(device_path, "wb"):
            pass
''', '''        self._ensure_directory(dir_path)

        device_path = os.path.join(dir_path, id)
        new_file = open(device_path, "wb")
        new_file.close()
''')
edit(RD, '''        try:
            disk_usage = disk_tools.disk_usage(self.temp_path)
            file_size = os.path.getsize(file_path)
        except''', '''        try:
            file_size = os.stat(file_path).st_size
            disk_usage = disk_tools.disk_usage(self.temp_path)
        except''')
edit(RD, '''            with open(snapshot_path, "rb") as snapshot_file:
                snapshot_file.seek(offset)
                data = snapshot_file.read(size)
                log.debug("read %i bytes from %s", len(data), snapshot_path)
''', '''            snapshot_file = open(snapshot_path, "rb")
            try:
                snapshot_file.seek(offset, 0)
                data = snapshot_file.read(size)
            finally:
                snapshot_file.close()
            log.debug("read %i bytes from %s", len(data), snapshot_path)
''')
edit(RD, '''        # If its already been removed, this is a no-opp
        if os.path.exists(snapshot_path):
            try:
                os.remove(snapshot_path)
            except Exception as error:
                log.warning("failed to remove %r; %r", snapshot_path, error)
''', '''        # If its already been removed, this is a no-opp
        if not os.path.exists(snapshot_path):
            return
        try:
            os.unlink(snapshot_path)
        except Exception as error:
            log.warning("failed to remove %r; %r", snapshot_path, error)
''')
edit(RD, '''        tries = 0
        while os.path.lexists(destination_path):
            tries += 1
            if tries > 100:
                raise TooManyCopies(
                    "Can't find unique filename for %s" % destination_path
                )
            destination_path = "%s/%s(%s)%s" % (dirname, basename, tries, ext)
''', '''        if os.path.lexists(destination_path):
            for copy_no in range(1, 101):
                destination_path = "%s/%s(%s)%s" % (dirname, basename, copy_no, ext)
                if not os.path.lexists(destination_path):
                    break
            else:
                raise TooManyCopies(
                    "Can't find unique filename for %s" % destination_path
                )
''')
SD = "scan_directory.py"
edit(SD, '''        try:
            is_dir = dir_entry.is_dir()
        except Exception:
            is_dir = False

        try:
            is_file = dir_entry.is_file()
        except Exception:
            is_file = False

        if is_dir:
''', '''        def ask(question):
            try:
                return question()
            except Exception:
                return False

        is_dir = ask(dir_entry.is_dir)
        is_file = not is_dir and ask(dir_entry.is_file)

        if is_dir:
''')
FS = "m2m/fileservice.py"
edit(FS, '''            with open(path, "rb") as read_file:
                read = partial(read_file.read, CHUNK_SIZE)
                for chunk in iter(read, b""):
                    if channel.is_closed:
                        log.warning("%r m2m closed prematurely", self)
                        break
                    channel.write(chunk)
                    bytes_sent += len(chunk)
''', '''            with open(path, "rb") as read_file:
                chunk = read_file.read(CHUNK_SIZE)
                while chunk and not channel.is_closed:
                    channel.write(chunk)
                    bytes_sent += len(chunk)
                    chunk = read_file.read(CHUNK_SIZE)
''')
CL = "client.py"
edit(CL, '''            self.poll()
            while not self.exit_event.wait(self.poll_rate_seconds):
                self.poll()
''', '''            while True:
                self.poll()
                if self.exit_event.wait(self.poll_rate_seconds):
                    break
''')
edit(CL, '''            with self.remote.batch() as batch:
                batch.call_with_id(
                    "authenticate_result",
                    "device.check_auth",
                    device_class="tuxtunnel",
                    serial=self.serial,
                    auth_token=self.auth_token,
                )
                batch.call_with_id(
                    "set_disk_space_result",''', '''            with self.remote.batch() as batch:
                self._authenticate(batch)
                batch.call_with_id(
                    "set_disk_space_result",''')
edit(CL, '''                with self.remote.batch() as batch:
                    batch.call_with_id(
                        "authenticate_result",
                        "device.check_auth",
                        device_class="tuxtunnel",
                        serial=self.serial,
                        auth_token=self.auth_token,
                    )
                    batch.call_with_id(
                        "set_machine''', '''                with self.remote.batch() as batch:
                    self._authenticate(batch)
                    batch.call_with_id(
                        "set_machine''')
edit(CL, '''    def disk_poll(self):
        now = time.time()

        if now >= self.next_disk_poll_time:
''', '''    def _authenticate(self, batch):
        batch.call_with_id(
            "authenticate_result",
            "device.check_auth",
            serial=self.serial,
            auth_token=self.auth_token,
            device_class="tuxtunnel",
        )

    def disk_poll(self):
        now = time.time()

        if not now < self.next_disk_poll_time:
''')
JR = "jsonrpc.py"
edit(JR, '''        self.errors = {r["id"]: r["error"] for r in response if "error" in r}
        self.results = {r["id"]: r for r in response if "id" in r and "error" not in r}
''', '''        errors, results = {}, {}
        for reply in response:
            if "error" in reply:
                errors[reply["id"]] = reply["error"]
            elif "id" in reply:
                results[reply["id"]] = reply
        self.errors, self.results = errors, results
''')
edit(JR, '''        url_file = None
        try:
            try:
                url_file = urlopen(self.url, call_json, timeout=API_TIMEOUT)
                response_json = url_file.read().decode("utf-8")
            finally:
                if url_file is not None:
                    url_file.close()
        except Exception as e:
''', '''        try:
            url_file = urlopen(self.url, call_json, timeout=API_TIMEOUT)
            try:
                response = url_file.read()
                response_json = response.decode("utf-8")
            finally:
                url_file.close()
        except Exception as e:
''')
TG = "tags.py"
edit(TG, '''    tag_list = re.split(r"[,\\s\\n\\t]", str_output)
    tags = [tag.strip()[:25] for tag in tag_list if tag]
    return tags''', '''    tags = []
    for tag in re.split(r"[,\\s]", str_output):
        if not tag:
            continue
        tags.append(tag.strip()[:25])
    return tags''')

BE = "m2m/bencode.py"
edit(BE, '''        number_bytes = b""
        while 1:
            c = read(1)
            if not c.isdigit() and c != b"-":
                if c != b"e":
                    raise DecodeError("illegal digit in size")
                break
            number_bytes += c
        number = int(number_bytes)
        return number
''', '''        digits = []
        c = read(1)
        while c.isdigit() or c == b"-":
            digits.append(c)
            c = read(1)
        if c != b"e":
            raise DecodeError("illegal digit in size")
        return int(b"".join(digits))
''')
edit(BE, '''        l = []
        while 1:
            i = _decode(read)
            if i is None:
                break
            l.append(i)
        return l
''', '''        return list(iter(lambda: _decode(read), None))
''')
edit(BE, '''        elif isinstance(obj, text_type):
            obj_bytes = obj.encode("utf-8")
            append("{}:".format(len(obj_bytes)).encode())
            append(obj_bytes)
''', '''        elif isinstance(obj, text_type):
            add_encode(obj.encode("utf-8"))
''')
PB = "m2m/packetbase.py"
edit(PB, '''        for arg, (attribute_name, attrib_type) in zip(args, self.attributes):
            if isinstance(arg, text_type):
                arg = arg.encode("utf-8")
            params[attribute_name] = arg
        for k, v in kwargs.items():
            if isinstance(v, text_type):
                v = v.encode("utf-8")
            params[k] = v
''', '''        def as_binary(value):
            return value.encode("utf-8") if isinstance(value, text_type) else value

        names = [attribute_name for attribute_name, _ in self.attributes]
        params.update((name, as_binary(arg)) for name, arg in zip(names, args))
        params.update((name, as_binary(arg)) for name, arg in kwargs.items())
''')
edit(PB, '''        args = []
        kwargs = self.kwargs.copy()
        for attrib_name, _ in self.attributes[:arg_count]:
            args.append(kwargs.pop(attrib_name))
        return args, kwargs
''', '''        names = [attrib_name for attrib_name, _ in self.attributes]
        first, rest = names[:arg_count], names[arg_count:]
        values = self.kwargs
        return [values[name] for name in first], {name: values[name] for name in rest}
''')
DI = "m2m/dispatcher.py"
edit(DI, '''        try:
            ret = method(packet_type, *args, **kwargs)
        except Exception:
            raise
        else:
            return ret
''', '''        return method(packet_type, *args, **kwargs)
''')
PX = "m2m/proxy.py"
edit(PX, '''        while data:
            n = os.write(master_fd, data)
            data = data[n:]
''', '''        written = 0
        while written < len(data):
            written += os.write(master_fd, data[written:])
''')
edit(PX, '''        reading = True
        while reading:
            try:
                poll_result = poll.poll(5 * 1000)
            except Exception as error:
                log.warning("error in proxy.py poll.poll; %s", error)
                break
            for _file_descriptor, event_mask in poll_result:
                if event_mask & readable_events:
                    data = os.read(master_fd, 1024 * 1024)
                    self.master_read(data)
                elif event_mask & error_events:
                    # Hung up, and everything was read
                    reading = False
                    break
''', '''        while True:
            try:
                poll_result = poll.poll(5000)
            except Exception as error:
                log.warning("error in proxy.py poll.poll; %s", error)
                return
            masks = [event_mask for _file_descriptor, event_mask in poll_result]
            for event_mask in masks:
                if event_mask & readable_events:
                    self.master_read(os.read(master_fd, 1024 * 1024))
                elif event_mask & error_events:
                    # Hung up, and everything was read
                    return
''')
edit(PX, '''        rows, cols = self.size
        buf = array.array("h", [cols, rows, 0, 0])
''', '''        columns, lines = self.size
        buf = array.array("h", [lines, columns, 0, 0])
''')
DS = "directory_scanner.py"
edit(DS, '''        with open(file_path + ".new", "wb") as scan_file:
            scan_file.write(scan_json)
        os.rename(file_path + ".new", file_path)''', '''        new_path = file_path + ".new"
        scan_file = open(new_path, "wb")
        try:
            scan_file.write(scan_json)
        finally:
            scan_file.close()
        os.rename(new_path, file_path)''')
edit(DS, '''            except ScanDirectoryError as error:
                log.warning(str(error))
                raise
            except Exception:
                log.exception("failed to scan directory %s", self.root_path)
                raise
            else:
                try:
                    self.write_scan(directory)
                except Exception:
                    log.exception("failed to write_scan")
                    raise
                else:
                    if on_success is not None:
                        try:
                            on_success()
                        except Exception:
                            log.exception("error in on_success")
''', '''            except ScanDirectoryError as error:
                log.warning(str(error))
                raise
            except Exception:
                log.exception("failed to scan directory %s", self.root_path)
                raise
            self.write_scan(directory)
            if on_success is None:
                return
            try:
                on_success()
            except Exception:
                log.exception("error in on_success")
''')
CC = "clockcheck.py"
edit(CC, '''            now = time()
            elapsed = now - last_check
            last_check = now

            if elapsed > MAX_CLOCK_DISCREPANCY:
                self.on_fail()
''', '''            previous, last_check = last_check, time()
            if not self._is_fine(last_check - previous):
                self.on_fail()
''')
edit(CC, '''    def on_fail(self):''', '''    @staticmethod
    def _is_fine(elapsed):
        return elapsed <= MAX_CLOCK_DISCREPANCY

    def on_fail(self):''')
DM = "device_meta.py"
edit(DM, '''    meta = {}
    meta["agent_version"] = __version__
    meta["machine_revision"] = rpi.get_machine_revision()
    meta["model_name"] = rpi.get_model_name()
    meta["os_version"] = get_os_version()
    meta["uname"] = get_uname()
    meta["ip_list"] = get_ip_address_list()
    _META_CACHE = meta
''', '''    _META_CACHE = meta = {
        "uname": get_uname(),
        "ip_list": get_ip_address_list(),
        "os_version": get_os_version(),
        "model_name": rpi.get_model_name(),
        "machine_revision": rpi.get_machine_revision(),
        "agent_version": __version__,
    }
''')
RPI = "rpi.py"
edit(RPI, '''            for line in fp:
                if b":" not in line:
                    continue
                key, _, value = line.partition(b":")
                key = key.strip().lower()
                value = value.strip().lower()
                if key == b"revision":
                    revision_code = value
                    break
''', '''            for line in fp:
                key, colon, value = line.partition(b":")
                if colon and key.strip().lower() == b"revision":
                    revision_code = value.lower().strip()
                    break
''')
IP = "iptool.py"
edit(IP, '''    interfaces = []
    for offset in range(0, if_buffer_size, struct_size):
        _iface = ifaces[offset : offset + struct_size]
        name, _, _ = _iface.partition(b"\\0")
''', '''    interfaces = []
    while len(interfaces) * struct_size < if_buffer_size:
        offset = len(interfaces) * struct_size
        _iface = ifaces[offset : offset + struct_size]
        name = _iface.split(b"\\0", 1)[0]
''')
AP = "app.py"
edit(AP, '''        client = Client(
            rpc_url=self.args.server_url,
            m2m_url=self.args.m2m_url,
            serial=self.args.serial,
            auth_token=self.args.auth_token,
            remote_directory_path=self.args.remote_directory,
        )
        return client
''', '''        args = self.args
        return Client(
            args.server_url, args.m2m_url, args.serial, args.auth_token, args.remote_directory
        )
''')
CO = "constants.py"
edit(CO, '''    try:
        value = int(environ.get(name, default))
    except ValueError:
        return default
    return value
''', '''    text = environ.get(name)
    if text is None:
        return default
    try:
        return int(text)
    except ValueError:
        return default
''')


def main(target):
    shutil.rmtree(target, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", target])
    for path, old, new in EDITS:
        p = "%s/dataplicity/%s" % (target, path)
        with open(p) as f:
            s = f.read()
        assert s.count(old) == 1, (path, s.count(old), old)
        with open(p, "w") as f:
            f.write(s.replace(old, new))
    print("%d edits" % len(EDITS))


if __name__ == "__main__":
    main(sys.argv[1])
