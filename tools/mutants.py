M = []
def m(id, *edits):
    M.append((id, edits))
W="m2m/wsclient.py"; B="m2m/bencode.py"; PB="m2m/packetbase.py"; PK="m2m/packets.py"; MM="m2mmanager.py"; CL="client.py"; PF="portforward.py"
FS="m2m/fileservice.py"; CS="m2m/commandservice.py"; RP="m2m/remoteprocess.py"; PX="m2m/proxy.py"; RD="remote_directory.py"; SD="scan_directory.py"; DS="directory_scanner.py"
LI="limiter.py"; TG="tags.py"; JR="jsonrpc.py"; CK="clockcheck.py"; CO="constants.py"; AP="app.py"; DM="device_meta.py"; RPI="rpi.py"; IP="iptool.py"; EC="m2m/echoservice.py"; DI="m2m/dispatcher.py"
m("C01-a",(B,'        raise DecodeError("invalid input")\n    if obj_type == b"e"','        return None\n    if obj_type == b"e"'))
m("C01-b",(PB,'if attrib_type is not None and not isinstance(value, attrib_type)','if attrib_type is bytes and not isinstance(value, attrib_type)'))
m("C01-e",(B,'                if c != b"e":\n                    raise DecodeError("illegal digit in size")\n',''))
m("C01-h",(W,'''                for event in persist(self.websocket):
                    log.debug("WS %r", event)
                    try:
                        self.on_event(event)
                    except Exception as error:
                        log.exception("error handling websocket event")
''','''                try:
                    for event in persist(self.websocket):
                        log.debug("WS %r", event)
                        self.on_event(event)
                except Exception as error:
                    log.exception("error handling websocket event")
'''))
m("C01-i",(DI,'packet = self._packet_cls.create(packet_type, *packet_body)','packet = self._packet_cls.create(packet_type, *list(packet_body))\n        if len(packet_body) > 64:\n            raise SystemExit("packet too long")'))
m("C01-j",(B,'    elif obj_type == b"l":\n        l = []\n        while 1:\n            i = _decode(read)\n            if i is None:\n                break\n            l.append(i)\n        return l','    elif obj_type == b"l":\n        l = []\n        while 1:\n            try:\n                i = _decode(read)\n            except DecodeError:\n                continue\n            if i is None:\n                break\n            l.append(i)\n        return l'))
m("C02-a",(B,'append("{}:".format(len(obj_bytes)).encode())','append("{}:".format(len(obj)).encode())'))
m("C02-d",(PB,'''        for k, v in kwargs.items():
            if isinstance(v, text_type):
                v = v.encode("utf-8")''','''        for k, v in kwargs.items():
            if isinstance(v, text_type):
                v = v.encode("latin-1", "replace")'''))
m("C02-e",(B,'keys = sorted(obj.keys())','keys = list(obj.keys())'))
m("C02-g",(B,"        string_bytes = read(size)","        size = min(size, 1024 * 1024)\n        string_bytes = read(size)"))
m("C02-h",(B,'        number = int(number_bytes)\n','        number = int(number_bytes or 0)\n'))
m("C02-i",(PB,'        for arg, (attribute_name, attrib_type) in zip(args, self.attributes):\n            if isinstance(arg, text_type):\n                arg = arg.encode("utf-8")','        for arg, (attribute_name, attrib_type) in zip(args, self.attributes):\n            if isinstance(arg, text_type):\n                arg = arg.encode("utf-8").strip()'))
m("C03-a",(W,'        """Called when ws socket closes."""\n        self.identity = None\n','        """Called when ws socket closes."""\n'))
m("C03-b",(MM,'            self.notified_identity = self.client.set_m2m_identity(identity)','            self.notified_identity = identity\n            self.client.set_m2m_identity(identity)'))
m("C03-c",(CL,'            batch.get_result("authenticate_result")\n            batch.get_result("associate_result")','            batch.get_result("associate_result")'))
m("C03-d",(CL,'            log.debug("set m2m identity failed, %s", e)\n            return None','            log.debug("set m2m identity failed, %s", e)\n            return identity'))
m("C03-e",(W,'        elif event.name == "poll":\n            self.sync_identity()','        elif event.name == "poll" and not self.channels:\n            self.sync_identity()'))
m("C03-g",(W,'persist(self.websocket)','persist(self.websocket, max_wait=300)'))
m("C03-j",(W,'        if not self.is_closed:\n            log.debug("setting identity','        if not self.is_closed and self.identity is None:\n            log.debug("setting identity'))
m("C03-k",(MM,'        self.identity = identity\n        if identity and identity != self.notified_identity:','        if identity == self.identity:\n            return\n        self.identity = identity\n        if identity and identity != self.notified_identity:'))
m("C04-b",(W,'    def get_channel(self, channel_no):\n','    def get_channel(self, channel_no):\n        channel_no = channel_no & 0xFFFF\n'))
m("C04-f",(W,'        self._close_callback = on_close\n','        self._close_callback = on_close or self._close_callback\n'))
m("C04-g",(W,'        self._control_callback = on_control\n','        if on_control is not None:\n            self._control_callback = on_control\n'))
m("C04-h",(W,'        """Write data to a virtual channel."""\n        self.send(','        """Write data to a virtual channel."""\n        if not data:\n            return\n        self.send('))
m("C05-a",(W,'            channel.on_close()\n            del self.channels[channel_no]','            channel.on_close()'))
m("C05-h",(W,'        self.identity = None\n        self.clear_callbacks()\n        self.hard_close_channels()','        self.clear_callbacks()\n        if self.identity is not None:\n            self.hard_close_channels()\n        self.identity = None'))
m("C05-f",(W,'            channel.on_close()\n        self.channels.clear()','            if channel._data_callback is not None:\n                channel.on_close()\n        self.channels.clear()'))
m("C05-g",(W,'        """Called when the notify_close packet is received."""\n','        """Called when the notify_close packet is received."""\n        self.deque.clear()\n        self._data_callback = None\n'))
m("C05-i",(W,'        channel = self.get_channel(channel_no)\n        log.debug("%s opened", channel)','        channel = self.channels[channel_no] = Channel(self, channel_no)\n        log.debug("%s opened", channel)'))
m("C06-a",(B,'''    """Encode to Bencode, return bytes"""
    binary = []
    append = binary.append
''','''    """Encode to Bencode, return bytes"""
    binary = _encode_buffer
    del binary[:]
    append = binary.append
'''),(B,'def encode(obj):','_encode_buffer = []\n\n\ndef encode(obj):'))
m("C06-b",(W,'''        packet_bytes = packet.encode_binary()
        self.send_bytes(packet_bytes)
''','''        self._packet_bytes = packet.encode_binary()
        self.send_bytes(self._packet_bytes)
'''))
m("C06-c",(W,'        except WebSocketError:\n            return False\n','        except WebSocketError:\n            self.websocket.send_binary(packet_bytes)\n            return False\n'))
m("C07-a",(W,'            if not self.deque:\n                self._data_event.clear()','            self._data_event.clear()'))
m("C07-f",(W,'                self.deque.append(data)\n                self._data_event.set()','                self.deque.append(data)\n            self._data_event.set()'))
m("C07-g",(W,'            with self._lock:\n                self.deque.append(data)\n                self._data_event.set()','            self.deque.append(data)\n            self._data_event.set()'))
m("C07-h",(W,'            if not self._data_event.wait(timeout):\n                return b""','            self._data_event.wait(timeout or 1.0)'))
m("C07-i",(W,'            if not self.deque:\n                self._data_event.clear()','        if not self.deque:\n            self._data_event.clear()'))
m("C07-j",(W,'                if not bytes_left:\n                    self.deque.popleft()\n                else:\n                    self.deque[0] = bytes_left','                self.deque.popleft()\n                if bytes_left:\n                    self.deque.append(bytes_left)'))
m("C08-a",(W,'data[:1024]','data[:1023]'))
m("C08-d",(EC,'        self.channel().write(data)','        if data:\n            self.channel().write(data)'))
m("C08-f",(W,'        self.send("pong", data=data[:1024])','        threading.Thread(target=self.send, args=("pong",), kwargs={"data": data[:1024]}).start()'))
m("C08-g",(W,'        self.send("pong", data=data[:1024])','        if data != getattr(self, "_last_ping", None):\n            self.send("pong", data=data[:1024])\n        self._last_ping = data'))
m("C09-a",(LI,'        except Exception:\n            # Decrement','        except LimitReached:\n            # Decrement'))
m("C09-d",(RP,'        try:\n            self.spawn(shlex.split(self.command))\n        finally:\n            self.limiter.decrement()','        self.spawn(shlex.split(self.command))\n        self.limiter.decrement()'))
m("C09-e",(PF,'            # Ensure decrement is called if _run throws an exception\n            self.limiter.decrement()','            if self.socket is not None:\n                self.limiter.decrement()'))
m("C09-g",(MM,'            self.terminals_limiter, self.m2m_client','            self.services_limiter, self.m2m_client'))
m("C09-h",(LI,'        with self._lock:\n            if self._value >= self._limit:\n                log.warning("%r reached limit", self)\n                raise LimitReached(\n                    "{} limit ({}) reached".format(self.name, self._limit)\n                )\n            self._value += 1\n            log.debug("%r incremented", self)','        if self._value >= self._limit:\n            log.warning("%r reached limit", self)\n            raise LimitReached(\n                "{} limit ({}) reached".format(self.name, self._limit)\n            )\n        self._value += 1\n        log.debug("%r incremented", self)'))
m("C09-i",(CS,'        finally:\n            self.limiter.decrement()','            if not channel.is_closed:\n                self.limiter.decrement()\n        finally:\n            pass'))
m("C09-j",(FS,'        finally:\n            self.limiter.decrement()','        except IOError:\n            self.limiter.decrement()\n        else:\n            self.limiter.decrement()'),(FS,'        except IOError as error:\n','        except OSError as error:\n            self.limiter.decrement()\n'))
m("C09-k",(LI,'            if self._value <= 0:\n                # If this occurs it indicates a bug in the caller\n                raise LimiterError("Counter can\'t be decremented below 0")\n            self._value -= 1','            value = self._value\n        if value <= 0:\n            raise LimiterError("Counter can\'t be decremented below 0")\n        self._value = value - 1\n        if True:'))
m("C10-a",(PF,'self.socket.sendall(chunk)','self.socket.send(chunk)'))
m("C10-d",(PF,'        with self._lock:\n            self.read_buffer.append(data)\n            self._flush_buffer()','        self.read_buffer.append(data)\n        self._flush_buffer()'))
m("C10-f",(PF,'                    if event_mask & readable_events:\n                        try:\n                            # Reads','                    if event_mask & readable_events and not event_mask & select.POLLHUP:\n                        try:\n                            # Reads'))
m("C10-g",(PF,'_socket.settimeout(5.0)','_socket.settimeout(0.5)'))
m("C10-h",(PF,'                            if data:\n                                self.channel.write(data)','                            if data.strip():\n                                self.channel.write(data)'))
m("C11-a",(PF,'            self.channel.close()\n            self._shutdown_read()','            if self.socket is not None:\n                self.channel.close()\n            self._shutdown_read()'))
m("C11-b",(PF,'                if self.channel.is_closed:\n                    break\n                for _file','                for _file'))
m("C11-c",(PF,'poll.poll(5 * 1000)','poll.poll(60 * 1000)'))
m("C11-d",(PF,'                                # No data means the socket has been closed\n                                connected = False','                                # No data means the socket has been closed\n                                self.close_event.set()\n                                connected = False'))
m("C11-e",(PF,'            self._flush_buffer()\n            self._shutdown_write()\n\n    def on_channel_control','            self._flush_buffer()\n            if not self.read_buffer and self._start_time:\n                self._close_socket()\n\n    def on_channel_control'))
m("C11-f",(PF,'            log.exception("error connecting")\n            return False\n','            log.exception("error connecting")\n            return False\n'),(PF,'            log.error("timed out connecting to server")\n            return False','            log.error("timed out connecting to server")\n            self.socket = _socket\n            return True'))
m("C12-f",(PF,'return self._services.get(service, default)','return self._services.get(service, default or self._services.get("web"))'))
m("C12-g",(PF,'return self._services.get(service, default)','return self._services.get(service.lower(), default)'))
m("C12-h",(PF,'                    host_port=("127.0.0.1", device_port),','                    host_port=("127.0.0.1", int(device_port)),'))
m("C12-i",(PF,'        self.host_port = host_port\n','        self.host_port = host_port\n        type(self)._last_host_port = host_port\n'),(PF,'_socket.connect(self.host_port)','_socket.connect(self._last_host_port)'))
m("C12-j",(PF,'("127.0.0.1", device_port)','("0.0.0.0", device_port)'))
m("C13-a",(FS,'                    if channel.is_closed:\n                        log.warning("%r m2m closed prematurely", self)\n                        break\n',''))
m("C13-e",(FS,'            path = "/" + path\n','            path = "/" + path\n        path = os.path.normpath(path)\n'))
m("C13-f",(FS,'            path = "/" + path\n','            path = "/" + path\n        path = path.strip()\n'))
m("C13-g",(FS,'            with open(path, "rb") as read_file:','            if os.path.getsize(path) == 0:\n                raise IOError("empty")\n            with open(path, "rb") as read_file:'))
m("C13-h",(FS,'                for chunk in iter(read, b""):\n','                size = os.path.getsize(path)\n                for chunk in iter(read, b""):\n                    if bytes_sent >= size:\n                        break\n'))
m("C13-i",(FS,'        except IOError as error:\n            self.send_error','        except IOError as error:\n            if bytes_sent:\n                return\n            self.send_error'))
m("C14-b",(CS,'                    if event_mask & readable_events:\n                        if _file','                    if event_mask & readable_events and not event_mask & select.POLLHUP:\n                        if _file'))
m("C14-c",(CS,'        poll.register(stderr_fh, events)\n',''))
m("C14-d",(CS,'"returncode": process.poll()}','"returncode": process.returncode or 0}'))
m("C14-e",(CS,'poll_result = poll.poll(0.5 * 1000)','poll_result = poll.poll()'))
m("C14-f",(CS,'                if process.poll() is None:\n                    process.kill()','                if process.poll() is None:\n                    process.terminate()'))
m("C14-g",(CS,'                if channel.is_closed:\n                    log.debug("%r channel closed", self)\n                    break\n','                if not poll_result and channel.is_closed:\n                    log.debug("%r channel closed", self)\n                    break\n'))
m("C14-h",(CS,'                            chunk = os.read(stderr_fh, CHUNK_SIZE)\n','                            chunk = os.read(stderr_fh, CHUNK_SIZE)\n                            if not chunk:\n                                more_data = False\n                                break\n'))
m("C15-a",(RP,'                    sent_kill = True\n',''))
m("C15-d",(RP,'            30,\n            60,\n            60 * 10,  # ten minutes\n            60 * 60,  # An hour\n            60 * 60 * 24,  # A day\n',''))
m("C15-e",(RP,'kill_time = 15','kill_time = 150'))
m("C15-f",(RP,'            time.sleep(2)\n            # os.WNOHANG flags makes waitpid return immediately if the process is running\n            pid, exit_code = os.waitpid(self.pid, os.WNOHANG)','            time.sleep(2)\n            # os.WNOHANG flags makes waitpid return immediately if the process is running\n            pid, exit_code = os.waitpid(-1, os.WNOHANG)'))
m("C15-g",(RP,'            if pid:\n                # The process has returned an exit code\n                log.debug("process %s exited with code=%i", self, exit_code)\n                break','            if pid and os.WIFEXITED(exit_code):\n                # The process has returned an exit code\n                log.debug("process %s exited with code=%i", self, exit_code)\n                break'))
m("C16-a",(PX,'        while data:\n            n = os.write(master_fd, data)\n            data = data[n:]','        os.write(master_fd, data)'))
m("C16-c",(PX,'        self._check_size(size)\n        self.size = size\n        if self.master_fd is not None:\n            self._set_pty_size()','        self._check_size(size)\n        if self.master_fd is not None:\n            self.size = size\n            self._set_pty_size()'))
m("C16-e",(PX,'                if event_mask & readable_events:\n                    data','                if event_mask & readable_events and not event_mask & select.POLLHUP:\n                    data'))
m("C16-g",(RP,'        self.channel.write(data)\n        super','        self.channel.write(data.decode("utf-8", "replace").encode("utf-8"))\n        super'))
m("C16-h",(PX,'data = os.read(master_fd, 1024 * 1024)','data = os.read(master_fd, 1024 * 1024).replace(b"\\x00", b"")'))
m("C16-i",(RP,'            size = control["size"]\n','            size = control.get("size") or [80, 24]\n'))
m("C17-b",(MM,'                    value.decode("utf-8", "ignore")\n','                    value.decode("utf-8", "ignore").strip()\n'))
m("C17-c",(MM,'self.open_file_service(data["port"], data["path"])','self.open_file_service(data["port"], data.get("path", ""))'))
m("C17-e",(MM,'        action = data["action"]\n','        action = data["action"].lower()\n'))
m("C17-f",(MM,'pid = subprocess.Popen(command.split()).pid','pid = subprocess.call(command.split())'))
m("C17-g",(MM,'            size = data.get("size", None)\n','            size = data.get("size", [80, 24])[:2]\n'))
m("C17-h",(MM,'        elif action == "reboot-device":','        elif action.startswith("reboot"):'))
m("C18-b",(RD,'            shutil.copyfile(file_path, snapshot_path)\n','            if not os.path.exists(snapshot_path):\n                shutil.copyfile(file_path, snapshot_path)\n'))
m("C18-c",(RD,'disk_usage.used + file_size > disk_usage.total - FREE_SPACE_MARGIN','disk_usage.used + file_size >= disk_usage.total - FREE_SPACE_MARGIN'))
m("C18-d",(RD,'disk_tools.disk_usage(self.temp_path)','disk_tools.disk_usage(self.path)'))
m("C18-e",(RD,'snapshot_size = os.path.getsize(snapshot_path)','snapshot_size = os.path.getsize(file_path)'))
m("C18-f",(RD,'            shutil.copyfile(file_path, snapshot_path)\n','            try:\n                os.link(file_path, snapshot_path)\n            except OSError:\n                shutil.copyfile(file_path, snapshot_path)\n'))
m("C18-g",(RD,'                snapshot_file.seek(offset)\n','                snapshot_file.seek(offset & 0x7FFFFFFF)\n'))
m("C18-h",(RD,'                data = snapshot_file.read(size)\n','                data = snapshot_file.read(min(size, 1024 * 1024))\n'))
m("C19-c",(RD,'        if not validate_path(destination_path):\n','        if not destination_path.startswith(self.path):\n'))
m("C19-e",(RD,'path.decode("utf-8").lstrip("/"))','path.decode("utf-8"))'))
m("C19-f",(RD,'file_path = os.path.join(self.path, path.lstrip("/"))','file_path = os.path.join(self.path, path)'))
m("C19-g",(RD,'    return ".." not in path.split(os.sep)','    return "/../" not in path'))
m("C19-h",(RD,'            if path == "\\0scan.json":\n','            if path.endswith("scan.json"):\n'),(RD,'"__dataplicity_remote_directory_scan___.json"\n                )','"__dataplicity_remote_directory_scan___.json" if path == "\\0scan.json" else path[1:]\n                )'))
m("C20-a",(RD,'with open(write_device_path, "r+b") as','with open(write_device_path, "ab") as'))
m("C20-d",(RD,'if tries > 100:','if tries > 10:'))
m("C20-e",(RD,'            tries += 1\n            if tries','            tries += 2\n            if tries'))
m("C20-f",(RD,'                    download_file.seek(offset)\n                    download_file.write(data)','                    download_file.seek(0, 2)\n                    if offset < download_file.tell():\n                        download_file.seek(offset)\n                    download_file.write(data)'))
m("C20-g",(RD,'        with open(device_path, "wb"):','        with open(device_path, "ab"):'))
m("C20-h",(RD,'        if not os.path.isdir(dirname):\n            dirname = self.path','        if not os.path.exists(dirname):\n            dirname = self.path'))
m("C20-i",(RD,'        try:\n            os.rename(device_path, destination_path)\n        except Exception:','        try:\n            shutil.copyfile(device_path, destination_path)\n        except Exception:'))
m("C21-a",(RD,'        try:\n            data = self.read_upload(upload_id.decode("utf-8"), offset, size)','        read_id = upload_id.decode("utf-8")\n        try:\n            data = self.read_upload(read_id, offset, size)'))
m("C21-b",(DS,'                log.warning(str(error))\n                raise\n','                log.warning(str(error))\n                return\n'))
m("C21-c",(RD,'''                offset=offset,
                size=size,
                data=data,''','''                offset=offset,
                size=len(data),
                data=data,'''))
m("C21-e",(RD,'raise AddFail("Unable to open (%s)" % error.strerror)','raise AddFail(error.strerror)'))
m("C21-f",(RD,'        except RemoteDirectoryError as error:\n            client.send(\n                PacketType.read','        except ReadFail as error:\n            client.send(\n                PacketType.read'))
m("C21-g",(RD,'            raise AddFail("Unable to open; %s" % error)','            raise AddFail(error)'),(RD,'        except (IOError, OSError) as error:\n            raise AddFail("Unable to open (%s)" % error.strerror)\n',''))
m("C22-g",(SD,'is_dir = dir_entry.is_dir()\n        except','is_dir = dir_entry.is_dir(follow_symlinks=False)\n        except'))
m("C22-h",(SD,'if dir_entry.name.startswith("."):','if dir_entry.name.startswith(".") and len(stack) > 1:'))
m("C22-i",(SD,'            # End of directory scan, we can discard top of stack\n            pop()\n            continue','            # End of directory scan, we can discard top of stack\n            pop()\n            visited_directories.clear()\n            continue'))
m("C22-j",(SD,'                size = -1\n','                continue\n'))
m("C22-k",(SD,'len(stack) >= max_depth','len(stack) > max_depth'))
m("C22-l",(SD,'            is_file = dir_entry.is_file()','            is_file = dir_entry.is_file() and not dir_entry.is_symlink()'))
m("C23-b",(DS,'                    log.exception("failed to write_scan")\n                    raise\n                else:\n','                    log.exception("failed to write_scan")\n                    raise\n                finally:\n'))
m("C23-d",(DS,'''        """Scan and upload directory structure."""
        with self._lock:''','''        """Scan and upload directory structure."""
        if not self._lock.acquire(False):
            with self._lock:
                if on_success is not None:
                    on_success()
                return
        self._lock.release()
        with self._lock:'''))
m("C23-e",(DS,'        with self._lock:\n            try:\n                start_time = time()\n                directory = scan_directory(self.root_path, file_sizes=file_sizes)\n                elapsed','        if True:\n            try:\n                start_time = time()\n                with self._lock:\n                    directory = scan_directory(self.root_path, file_sizes=file_sizes)\n                elapsed'))
m("C24-a",(CL,'                batch.get_result("authenticate_result")\n                self._check_meta(batch)','                self._check_meta(batch)'))
m("C24-c",(CL,'                "set_uname_result",\n                "set_ip_addresses_result",\n','                "set_uname_result",\n'))
m("C24-d",(CL,'            with self._sync_lock:\n                self._sync()','            self._sync()'))
m("C24-e",(CL,'            if not self._sent_meta:\n                with self.remote','            if not self._sent_meta:\n                self._sent_meta = True\n                with self.remote'),(CL,'        if self._sent_meta:\n            log.debug("meta was previously sent")\n            return\n',''),(CL,'            log.warning("failed to set device meta (%s)", e)\n','            log.warning("failed to set device meta (%s)", e)\n            self._sent_meta = False\n'))
m("C25-a",(TG,'    return tags','    return sorted(set(tags), key=tags.index)'))
m("C25-b",(CL,'            if tag_list != self._tag_list:','            if tag_list and tag_list != self._tag_list:'))
m("C25-c",(TG,'        raise TagError("error running %s" % tag_executable)','        return []'))
m("C25-d",(CL,'                log.debug("new machine tags: %r", tag_list)\n','                log.debug("new machine tags: %r", tag_list)\n                self._tag_list = tag_list\n'))
m("C25-g",(CL,'                batch.get_result("set_machine_defined_tags_result")\n',''))
m("C25-h",(CL,'            if tag_list != self._tag_list:','            if sorted(tag_list) != sorted(self._tag_list or ()) or self._tag_list is None:'))
m("C25-i",(TG,'[:25]','[:26]'))
m("C26-a",(JR,'if "id" in r and "error" not in r}','if "id" in r}'))
m("C26-c",(JR,'self.results = {r["id"]: r for r in response if "id" in r and "error" not in r}','self.results = {c["id"]: r for c, r in zip(self.calls, response) if "id" in c and "error" not in r}'))
m("C26-e",(JR,'            raise KeyError("No such call_id in response")','            return None'))
m("C26-f",(JR,'{r["id"]: r["error"] for r in response if "error" in r}','{r["id"]: r["error"] for r in response if r.get("error")}'),(JR,'"error" not in r}','not r.get("error")}'))
m("C26-g",(JR,'        if not isinstance(response, list):\n            raise ProtocolError("Expected a list of response from the server")\n','        if not isinstance(response, list):\n            response = [response]\n'))
m("C26-h",(CL,'                batch.get_result("authenticate_result")\n                self._check_meta(batch)','                batch.get_result("authenticate_result", None)\n                self._check_meta(batch)'))
m("C27-b",(CL,'        try:\n            self.disk_poll()\n        except Exception as e:','        try:\n            self.disk_poll()\n        except (jsonrpc.ServerUnreachableError, IOError) as e:'))
m("C27-c",(CL,'            while not self.exit_event.wait(self.poll_rate_seconds):\n                self.poll()','            while not self.exit_event.is_set():\n                time.sleep(self.poll_rate_seconds)\n                self.poll()'))
m("C27-d",(CL,'disk_used=disk_space.used','disk_used=disk_space.total - disk_space.free'))
m("C27-g",(CL,'self.next_disk_poll_time = now + self.disk_poll_rate_seconds','self.next_disk_poll_time += self.disk_poll_rate_seconds'))
m("C27-h",(CL,'disk_usage("/")','disk_usage(self.remote_directory_path)'))
m("C27-i",(CL,'            self.poll()\n            while','            self.poll()\n            self.exit_event.clear()\n            while'))
m("C28-a",(CK,'if elapsed > MAX','if abs(elapsed) > MAX'))
m("C28-b",(CK,'MAX_CLOCK_DISCREPANCY = 180.0','MAX_CLOCK_DISCREPANCY = 1800.0'))
m("C28-c",(CK,'CHECK_PERIOD = 1.0','CHECK_PERIOD = 170.0'))
m("C28-d",(CL,'            clock_check_thread.running = False\n            clock_check_thread.join()\n','            clock_check_thread.join(5)\n'))
m("C29-a",(CL,'        if "?" not in self.m2m_url:','        if not m2m_url or "?" not in self.m2m_url and self.m2m_url.endswith("/"):'))
m("C29-b",(CL,'self.auth_token = self.auth_token or self._read(constants.AUTH_LOCATION)','self.auth_token = self.auth_token or (self._read(constants.AUTH_LOCATION) if self.serial else None)'),(CL,'            self.serial = self.serial or self._read(constants.SERIAL_LOCATION)\n','            if not (self.serial and self.auth_token):\n                self.serial = self._read(constants.SERIAL_LOCATION)\n'))
m("C29-c",(CO,'value = int(environ.get(name, default))','value = int(float(environ.get(name, default)))'))
m("C29-d",(CL,'data = fh.read().strip()','data = fh.read().rstrip("\\n")'))
m("C29-e",(CL,'self.rpc_url = rpc_url or constants.SERVER_URL','self.rpc_url = constants.SERVER_URL if rpc_url is None else rpc_url.rstrip("/")'))
m("C29-g",(MM,'url = m2m_url or constants.M2M_URL','url = constants.M2M_URL if m2m_url is None or m2m_url.startswith(constants.M2M_URL) else m2m_url'))
m("C30-a",(W,'        self.clear_callbacks()\n        self.hard_close_channels()','        if self.channels:\n            self.clear_callbacks()\n        self.hard_close_channels()'))
m("C30-b",(W,'        self.callback(command_id, result)','        if result:\n            self.callback(command_id, result)'))
m("C30-c",(W,'            callbacks = self.callbacks.pop(command_id, [])\n','            callbacks = self.callbacks.pop(command_id, [])[:8]\n'))
m("C31-a",(IP,'MAX_INTERFACES = 100','MAX_INTERFACES = 10'))
m("C31-c",(RPI,'key, _, value = line.partition(b":")','key, value = line.split(b":")[:2]'))
m("C31-d",(RPI,'if key == b"revision":','if key.startswith(b"revision"):'))
m("C31-e",(RPI,'                    revision_code = value\n                    break','                    revision_code = value'))
m("C31-f",(IP,'    finally:\n        _socket.close()','    finally:\n        pass'))
m("C31-h",(DM,'        interfaces = get_all_interfaces()\n    except Exception:','        interfaces = get_all_interfaces()\n    except IOError:'))
m("C31-i",(IP,'name.decode("ascii", "replace")','name.decode("ascii")'))
m("C31-j",(DM,'return [i[1] for i in interfaces]','return sorted(set(i[1] for i in interfaces))'))
