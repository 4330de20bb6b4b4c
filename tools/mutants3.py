from mutants import *
M = []
def m(id, *edits):
    M.append((id, edits))
m("C01-p",(W,'            log.exception("packet could not be decoded")\n','            log.exception("packet could not be decoded")\n            self.bad_packets = getattr(self, "bad_packets", 0) + 1\n            if self.bad_packets > 20:\n                self.websocket.close()\n'))
m("C01-q",(W,'                log.debug("unknown packet; %r", packet_type)\n','                log.debug("unknown packet; %r", packet_type)\n                self.unknown = getattr(self, "unknown", 0) + 1\n                if self.unknown >= 8:\n                    self.dispatcher.disable()\n'))
m("C02-p",(B,'        size = int(size_bytes)\n','        size = int(size_bytes)\n        if size >= 1 << 22:\n            raise DecodeError("string too long")\n'))
m("C02-q",(B,'        if not size_bytes.isdigit():','        if not size_bytes.isdigit() or len(size_bytes) > 6:'))
m("C03-p",(MM,'        self.identity = identity\n        if identity and','        changed = identity != self.identity\n        self.identity = identity\n        if not changed and self.notified_identity is not None:\n            return\n        if identity and'))
m("C04-p",(W,'        if channel_no not in self.channels:\n            self.channels[channel_no] = Channel(self, channel_no)\n        return self.channels[channel_no]','        key = channel_no & 0xFFFFFFFF\n        if key not in self.channels:\n            self.channels[key] = Channel(self, channel_no)\n        return self.channels[key]'))
m("C04-q",(W,'        if self._data_callback is not None:\n            self._data_callback(data)\n        else:\n            with self._lock:\n                self.deque.append(data)\n                self._data_event.set()','        with self._lock:\n            self.deque.append(data)\n            self._data_event.set()\n        if self._data_callback is not None:\n            while self.deque:\n                self._data_callback(self.deque.popleft())'))
m("C05-p",(W,'            channel = self.get_channel(channel_no)\n            channel.on_close()\n            del self.channels[channel_no]','            channel = self.get_channel(channel_no)\n            del self.channels[channel_no]\n            channel.on_close()'))
m("C05-q",(W,'        """Called when ws socket closes."""\n        self.identity = None\n        self.clear_callbacks()\n        self.hard_close_channels()','        """Called when ws socket closes."""\n        self.identity = None\n        self.hard_close_channels()\n        self.clear_callbacks()'))
m("C07-p",(W,'            if not self.deque:\n                self._data_event.clear()\n','        if not self.deque:\n            self._data_event.clear()\n'))
m("C07-q",(W,'            if not self._data_event.wait(timeout):\n                return b""','            if not self._data_event.wait(timeout) or not self.deque:\n                return b""'))
m("C09-p",("limiter.py",'        with self._lock:\n            if self._value >= self._limit:\n                log.warning("%r reached limit", self)\n                raise LimitReached(\n                    "{} limit ({}) reached".format(self.name, self._limit)\n                )\n            self._value += 1','        if self._value >= self._limit:\n            log.warning("%r reached limit", self)\n            raise LimitReached(\n                "{} limit ({}) reached".format(self.name, self._limit)\n            )\n        with self._lock:\n            self._value += 1'))
m("C09-q",("limiter.py",'        with self._lock:\n            if self._value <= 0:','        if True:\n            if self._value <= 0:'))
m("C12-p",(PF,'        channel = self.m2m.m2m_client.get_channel(m2m_port)\n        try:\n            with limiter():\n                Connection(','        channel = self.m2m.m2m_client.get_channel(m2m_port)\n        device_port = self._redirects.setdefault(m2m_port, device_port)\n        try:\n            with limiter():\n                Connection('),(PF,'        self._ports = {}\n','        self._ports = {}\n        self._redirects = {}\n'))
m("C12-q",(PF,'        if port is not None:\n            service','        if port is None and isinstance(service, int):\n            service, port = None, service\n        if port is not None:\n            service'))
m("C14-p",(CS,'                if channel.is_closed:\n                    log.debug("%r channel closed", self)\n                    break\n','                if channel.is_closed:\n                    log.debug("%r channel closed", self)\n                    break\n                if not poll_result and process.poll() is not None:\n                    break\n'))
m("C14-q",(CS,'            exit_time = time.time() + 1.0','            exit_time = time.time() + 0.1'))
m("C15-p",(RP,'            hang_up = not self._hung_up and self.pid is not None','            hang_up = not self._hung_up and self.pid is not None and self.master_fd is not None'))
m("C15-q",(RP,'        while warnings:\n            time.sleep(2)\n','        while warnings:\n            time.sleep(2 if not sent_kill else 3600)\n'))
m("C16-p",(PX,'        self._check_size(size)\n        self.size = size\n        if self.master_fd is not None:','        self._check_size(size)\n        if size == self.size:\n            return\n        self.size = size\n        if self.master_fd is not None:'))
m("C16-q",(PX,'            n = os.write(master_fd, data)\n            data = data[n:]','            n = os.write(master_fd, data[:4096])\n            data = data[n or len(data):]'))
m("C16-r",(PX,'            n = os.write(master_fd, data)','            n = os.write(master_fd, data[:1024])'))
m("C17-p",(MM,'        action = data["action"]\n','        action = data["action"]\n        if (sender, data) == getattr(self, "_last_instruction", None):\n            return\n        self._last_instruction = sender, data\n'))
m("C18-q",(RD,'            shutil.copyfile(file_path, snapshot_path)','            if not os.path.exists(snapshot_path) or os.path.getsize(snapshot_path) != os.path.getsize(file_path):\n                shutil.copyfile(file_path, snapshot_path)'))
m("C18-r",(RD,'            with open(snapshot_path, "rb") as snapshot_file:\n                snapshot_file.seek(offset)','            with open(snapshot_path, "rb") as snapshot_file:\n                snapshot_file.seek(offset & 0x7FFFFFFF)'))
m("C18-s",(RD,'            shutil.copyfile(file_path, snapshot_path)','            if os.path.islink(file_path):\n                os.symlink(os.path.realpath(file_path), snapshot_path)\n            else:\n                shutil.copyfile(file_path, snapshot_path)'))
m("C20-s",(RD,'        destination_path = os.path.join(self.path, path.decode("utf-8").lstrip("/"))\n        if not validate_path(destination_path):','        destination_path = os.path.join(self.path, os.path.expanduser(path.decode("utf-8")).lstrip("/"))\n        if not validate_path(destination_path):'))
m("C19-q",(RD,'                dirname, filename = os.path.split(write_device_path)\n                if dirname != self.get_downloads_path() or','                dirname, filename = os.path.split(write_device_path)\n                if os.path.normpath(dirname) != self.get_downloads_path() or'))
m("C20-p",(RD,'        if not os.path.isdir(dirname):\n            dirname = self.path','        if not os.path.exists(dirname):\n            dirname = self.path'))
m("C20-q",(RD,'        basename, ext = os.path.splitext(filename)\n','        basename, _, ext = filename.partition(".")\n        ext = ext and "." + ext\n'))
m("C20-r",(RD,'            destination_path = "%s/%s(%s)%s" % (dirname, basename, tries, ext)','            destination_path = "%s/%s(%s)%s" % (dirname, basename[:8], tries, ext)'))
m("C21-p",(RD,'                size=size,\n                data=data,','                size=len(data),\n                data=data,'))
m("C21-q",(RD,'                try:\n                    log.debug("removing %s", write_device_path)\n                    os.remove(write_device_path)\n                except:\n                    log.exception("failed to remove %r", write_device_path)\n                return','                log.debug("removing %s", write_device_path)\n                os.remove(write_device_path)\n                return'))
m("C23-p",(DS,'        with open(file_path + ".new", "wb") as scan_file:\n            scan_file.write(scan_json)\n','        with open(file_path + ".new", "r+b" if os.path.exists(file_path + ".new") else "wb") as scan_file:\n            scan_file.write(scan_json)\n'))
m("C23-q",(DS,'        with self._lock:\n            try:\n                start_time','        with self._lock:\n            if on_success is None and getattr(self, "_last", 0) > time() - 1:\n                return\n            self._last = time()\n            try:\n                start_time'))
m("C24-p",(CL,'                batch.get_result("authenticate_result")\n                self._check_meta(batch)','                self._check_meta(batch)'))
m("C24-q",(CL,'        if self._sent_meta:\n            log.debug("meta was previously sent")\n            return\n        try:\n            batch.check(','        if self._sent_meta:\n            log.debug("meta was previously sent")\n            return\n        try:\n            if batch.results:\n                batch.errors.pop("set_ip_addresses_result", None)\n                batch.results.setdefault("set_ip_addresses_result", {})\n            batch.check('))
m("C25-p",(CL,'        else:\n            # Success! Set cached tag list\n            self._tag_list = tag_list','        else:\n            # Success! Set cached tag list\n            self._tag_list = tag_list or None'))
m("C25-q",(CL,'        try:\n            if tag_list != self._tag_list:\n                log.debug("new machine tags: %r", tag_list)','        try:\n            if tag_list != self._tag_list:\n                self._tag_list = None\n                log.debug("new machine tags: %r", tag_list)'))
m("C25-r",(TG,'    if not os.path.exists(tag_executable):','    if not os.path.isfile(tag_executable):'))
m("C27-p",(CL,'            while not self.exit_event.wait(self.poll_rate_seconds):\n                self.poll()','            while not self.exit_event.wait(self.poll_rate_seconds):\n                self.exit_event.clear()\n                self.poll()'))
m("C28-p",(CK,'            sleep(CHECK_PERIOD)\n','            if elapsed_last > 2 * CHECK_PERIOD:\n                last_check = time()\n            sleep(CHECK_PERIOD)\n'),(CK,'            elapsed = now - last_check\n','            elapsed = elapsed_last = now - last_check\n'),(CK,'        last_check = time()\n','        last_check = time()\n        elapsed_last = 0\n'))
m("C29-p",(CL,'            self.serial = self.serial or self._read(constants.SERIAL_LOCATION)','            self.serial = (self.serial or self._read(constants.SERIAL_LOCATION)).lower()'))
m("C29-q",(CL,'            data = fh.read().strip()','            data = fh.readline().strip()'))
m("C30-p",(W,'        for callback in callbacks:\n            try:\n                callback(result)','        for callback in set(callbacks):\n            try:\n                callback(result)'))
m("C31-p",(DM,'        return _META_CACHE.copy()','        return _META_CACHE'))
m("C31-q",(DM,'    _META_CACHE = meta\n    return meta','    if meta["ip_list"]:\n        _META_CACHE = meta\n    return meta'))
M=[x for x in M if x]
