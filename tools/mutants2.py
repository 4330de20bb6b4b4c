from mutants import *
M = []
def m(id, *edits):
    M.append((id, edits))
m("C01-k",(DI,'        except Exception:\n            raise\n','        except TypeError:\n            self.disable()\n            raise\n'))
m("C02-k",(B,'append("i{}e".format(obj).encode())','append("i{}e".format(obj if -2**53 < obj < 2**53 else int(float(obj))).encode())'))
m("C02-l",(B,'            i = _decode(read)\n            if i is None:\n                break\n            l.append(i)','            i = _decode(read)\n            if i is None or i == {}:\n                break\n            l.append(i)'))
m("C02-m",(B,'            kv.append((k, v))\n','            kv.append((k, v or b""))\n'))
m("C03-k",(MM,'if identity and identity != self.notified_identity:','if identity and identity[:8] != (self.notified_identity or b"")[:8]:'))
m("C03-l",(W,'elif event.name == "disconnected":\n            self.on_disconnected()','elif event.name == "disconnected":\n            if not event.graceful:\n                self.identity, identity = None, self.identity\n            self.clear_callbacks()\n            self.hard_close_channels()'))
m("C03-m",(MM,'            self.notified_identity = self.client.set_m2m_identity(identity)','            self.notified_identity = self.client.set_m2m_identity(identity) or self.notified_identity'))
m("C05-k",(W,'        for channel in self.channels.values():\n            channel.on_close()','        for channel in self.channels.values():\n            if not channel.deque:\n                channel.on_close()'))
m("C05-l",(W,'            channel.on_close()\n            del self.channels[channel_no]','            channel.on_close()\n            if not channel.deque:\n                del self.channels[channel_no]'))
m("C05-m",(W,'        with self._lock:\n            if self._closed:\n                return\n            self._closed = True\n        try:\n            if self._close_callback is not None:\n                self._close_callback()\n        except:\n            log.exception("error in close callback")\n','        try:\n            if not self._closed and self._close_callback is not None:\n                self._close_callback()\n        except:\n            log.exception("error in close callback")\n        self._closed = True\n'))
m("C06-k",(W,'            with self.write_lock:\n                self.websocket.send_binary(packet_bytes)','            if len(packet_bytes) < 126:\n                self.websocket.send_binary(packet_bytes)\n            else:\n                with self.write_lock:\n                    self.websocket.send_binary(packet_bytes)'))
m("C07-k",(W,'            if not self.deque:\n                self._data_event.clear()','            if not self.deque or not bytes_remaining:\n                self._data_event.clear()'))
m("C07-l",(W,'            if not self._data_event.wait(timeout):\n                return b""','            if not self._data_event.is_set() and not self._data_event.wait(timeout or 60):\n                return b""'))
m("C08-k",(W,'self.send("pong", data=data[:1024])','self.send("pong", data=data[:1024].rstrip(b"\\0"))'))
m("C08-l",(W,'        self.send("pong", data=data[:1024])','        if data != getattr(self, "_last_ping", None) or not data:\n            self.send("pong", data=data[:1024])\n        self._last_ping = data'))
m("C10-k",(PF,'self.socket.sendall(chunk)','self.socket.send(chunk)'))
m("C10-l",(PF,'                    if event_mask & readable_events:\n                        try:','                    if event_mask & select.POLLHUP:\n                        connected = False\n                    elif event_mask & readable_events:\n                        try:'))
m("C10-m",(PF,'            log.debug("connected to %s:%d", *self.host_port)\n            #','            _socket.settimeout(0)\n            #'))
m("C11-k",(PF,'            log.debug("connected to %s:%d", *self.host_port)\n            #','            _socket.settimeout(None)\n            #'))
m("C11-l",(PF,'poll.poll(5 * 1000)','poll.poll(60 * 1000)'))
m("C12-k",(PF,'host_port=("127.0.0.1", device_port)','host_port=("127.0.0.1", device_port & 0xFFFF)'))
m("C12-l",(PF,'        return self._services.get(service, default)','        for name in sorted(self._services):\n            if service and name.startswith(service):\n                return self._services[name]\n        return default'))
m("C13-k",(FS,'        if not path.startswith("/"):','        path = os.path.expanduser(path)\n        if not path.startswith("/"):'))
m("C13-l",(FS,'        if not path.startswith("/"):','        path = os.path.expandvars(path)\n        if not path.startswith("/"):'))
m("C14-k",(CS,'"returncode": process.poll()','"returncode": abs(process.poll() or 0)'))
m("C14-l",(CS,'            command, stdout=subprocess.PIPE','            command.strip(), stdout=subprocess.PIPE'))
m("C14-m",(CS,'        poll.register(stderr_fh, events)\n',''))
m("C15-k",(RP,'kill_time = 15','kill_time = 12'))
m("C15-l",(RP,'            10,\n            30,\n            60,\n            60 * 10,  # ten minutes\n            60 * 60,  # An hour\n            60 * 60 * 24,  # A day\n','            10,\n'))
m("C15-m",(RP,'            60 * 10,  # ten minutes\n            60 * 60,  # An hour\n            60 * 60 * 24,  # A day\n',''))
m("C16-k",(PX,'data = os.read(master_fd, 1024 * 1024)\n                    self.master_read(data)','data = os.read(master_fd, 1024 * 1024)\n                    self.master_read(data.replace(b"\\r\\n", b"\\n"))'))
m("C16-l",(RP,'control_type = control.get("type", None)','control_type = (control.get("type", None) or "").lower()'))
m("C17-k",(MM,'value.decode("utf-8", "ignore")','value.decode("utf-8", "ignore").strip()'))
m("C17-l",(MM,'elif action == "reboot-device":','elif action.startswith("reboot"):'))
m("C18-k",(RD,'data = snapshot_file.read(size)','data = snapshot_file.read(min(size, 65536))'))
m("C18-l",(RD,'            shutil.copyfile(file_path, snapshot_path)','            if os.path.exists(snapshot_path):\n                os.remove(snapshot_path)\n            os.link(os.path.realpath(file_path), snapshot_path)'))
m("C18-m",(RD,'snapshot_path = os.path.join(dir_path, upload_id)','snapshot_path = os.path.join(dir_path, upload_id.lower())'))
m("C18-n",(RD,'FREE_SPACE_MARGIN = 50 * 1000 * 1000','FREE_SPACE_MARGIN = 50 * 1024 * 1024'))
m("C18-o",(RD,'if disk_usage.used + file_size > disk_usage.total - FREE_SPACE_MARGIN','if file_size > disk_usage.free - FREE_SPACE_MARGIN'))
m("C18-p",(RD,'if disk_usage.used + file_size > disk_usage','if disk_usage.used + file_size >= disk_usage'))
m("C19-k",(RD,'if path == "\\0scan.json":','if path.endswith("scan.json"):'))
m("C19-l",(RD,'    return id not in ("", ".", "..") and os.sep','    return id.strip(".") and os.sep'))
m("C20-k",(RD,'os.path.lexists(destination_path)','os.path.exists(destination_path)'))
m("C20-l",(RD,'            if tries > 100:','            if tries > 9:'))
m("C20-m",(RD,'with open(write_device_path, "r+b")','with open(write_device_path, "r+b" if offset else "wb")'))
m("C21-k",(RD,'            offset + len(data),\n            len(data),','            offset + len(data),\n            len(data) or 1,'))
m("C22-k",(SD,'size = dir_entry.stat().st_size','size = dir_entry.stat(follow_symlinks=False).st_size'))
m("C22-l",(SD,'                visited_directories.add(inode)\n','                if dir_entry.is_symlink():\n                    visited_directories.add(inode)\n'))
m("C22-m",(SD,'if dir_entry.name.startswith("."):','if dir_entry.name.startswith(".") and dir_entry.name != "...":'))
m("C23-k",(DS,'        os.rename(file_path + ".new", file_path)','        if os.path.exists(file_path):\n            os.remove(file_path)\n        os.rename(file_path + ".new", file_path)'))
m("C23-l",(DS,'if self._lock.locked() and on_success is None and on_error is None','if self._lock.locked() and on_success is None'),)
m("C23-m",(DS,'if self._lock.locked() and on_success is None and on_error is None:','if self._lock.locked():\n            if on_success is not None:\n                on_success()'))
m("C25-k",(TG,'[tag.strip()[:25] for tag in tag_list if tag]','[tag.strip().encode("utf-8")[:25].decode("utf-8", "ignore") for tag in tag_list if tag]'))
m("C25-l",(CL,'if tag_list != self._tag_list:','if self._tag_list is None or sorted(tag_list) != sorted(self._tag_list):'))
m("C25-m",(CL,'if tag_list != self._tag_list:','if tag_list != (self._tag_list or []):'))
m("C26-k",(JR,'r["error"] for r in response if "error" in r}','r["error"] for r in response if r.get("error")}'),(JR,'if "id" in r and "error" not in r}','if "id" in r and not r.get("error")}'))
m("C26-l",(JR,'        if not isinstance(response, list):\n','        if isinstance(response, dict):\n            response = [response]\n        if not isinstance(response, list):\n'))
m("C26-m",(JR,'        if response["id"] != call_id:','        if str(response["id"]) != str(call_id):'))
m("C27-k",("disk_tools.py",'used = total - avail_to_root','used = total - avail_to_user'))
m("C27-l",(CL,'if now >= self.next_disk_poll_time:','if now > self.next_disk_poll_time + 1:'))
m("C28-k",(CK,'if elapsed > MAX_CLOCK_DISCREPANCY','if abs(elapsed) > MAX_CLOCK_DISCREPANCY'))
m("C28-l",(CK,'if elapsed > MAX_CLOCK_DISCREPANCY','if MAX_CLOCK_DISCREPANCY < elapsed < 365 * 86400'))
m("C29-k",(CO,'value = int(environ.get(name, default))','value = int(float(environ.get(name, default)))'))
m("C29-l",(CL,'if "?" not in self.m2m_url','if "?" not in self.m2m_url or self.m2m_url.endswith("?")'))
m("C30-k",(W,'            callbacks = self.callbacks.pop(command_id, [])','            callbacks = self.callbacks.get(command_id, [])'))
m("C30-l",(W,'            outstanding = list(self.callbacks.values())\n            self.callbacks.clear()','            outstanding = list(self.callbacks.values())\n            self.callbacks = {}'))
m("C31-k",(IP,'MAX_INTERFACES = 100','MAX_INTERFACES = 8'))
m("C31-l",(RPI,'                    revision_code = value\n                    break','                    revision_code = value'))
m("C31-m",(DM,'return [i[1] for i in interfaces]','return sorted(set(i[1] for i in interfaces))'))
m("C31-n",(DM,'return [i[1] for i in interfaces]','return [i[1] for i in interfaces if i[0] != "lo"]'))
