from mutants import *
M = []
def m(id, *edits):
    M.append((id, edits))
m("C01-aa",(B,'            if not c:\n                raise DecodeError("unexpected end of data in size")\n            size_bytes += c\n        if not size_bytes.isdigit():\n            raise DecodeError("illegal digit in size")\n','            if not c:\n                raise DecodeError("unexpected end of data in size")\n            size_bytes += c\n'))
m("C01-ab",(DI,'        packet = self._packet_cls.create(packet_type, *packet_body)','        packet = self._packet_cls.create(packet_type, *packet_body[:8])'))
m("C01-ac",(W,'        except Exception:\n            log.exception("packet is badly formatted")','        except (TypeError, ValueError):\n            log.exception("packet is badly formatted")'))
m("C01-ad",(W,'                    except Exception as error:\n                        log.exception("error handling websocket event")','                    except WebSocketError as error:\n                        log.exception("error handling websocket event")\n                    except (ValueError, TypeError, KeyError, AttributeError, AssertionError) as error:\n                        log.exception("error handling websocket event")'))
m("C02-aa",(B,'            keys = sorted(obj.keys())','            keys = sorted(obj.keys(), key=lambda k: (len(k), k))'))
m("C02-ab",(PB,'        for (attrib_name, attrib_type), value in zip(cls.attributes, packet_body):\n            params[attrib_name] = value','        for (attrib_name, attrib_type), value in zip(cls.attributes, packet_body):\n            if value or attrib_type is not bytes:\n                params[attrib_name] = value'))
m("C03-aa",(MM,'            self.notified_identity = self.client.set_m2m_identity(identity)','            self.notified_identity = self.client.set_m2m_identity(identity) or self.notified_identity'))
m("C03-ab",(W,'            self.identity = identity\n            self.sync_identity()','            changed = self.identity != identity\n            self.identity = identity\n            if changed:\n                self.sync_identity()'))
m("C03-ac",(W,'        """Ask manager to set the m2m identity."""\n','        """Ask manager to set the m2m identity."""\n        if time.time() - self.last_packet_time > 60:\n            return\n'))
m("C04-aa",(W,'            self.channel_callback(channel, data)','            self.channel_callback(channel, data)',),(W,'        self._data_callback = on_data\n        self._close_callback = on_close\n        self._control_callback = on_control','        self._data_callback = on_data or self._data_callback\n        self._close_callback = on_close or self._close_callback\n        self._control_callback = on_control or self._control_callback'))
m("C05-aa",(W,'        for channel in self.channels.values():\n            channel.on_close()\n        self.channels.clear()','        for channel_no in list(self.channels):\n            channel = self.channels.pop(channel_no)\n            if not channel:\n                channel.on_close()'))
m("C05-ab",(W,'        with self._lock:\n            if not self._closed:\n                self.client.close_channel(self.number)','        with self._lock:\n            self.client.close_channel(self.number)'))
m("C05-ac",(W,'            if not self.is_closed:\n                self.client.channel_control_write','            if True:\n                self.client.channel_control_write'))
m("C07-aa",(W,'                bytes_remaining -= read_bytes\n                if not bytes_left:','                bytes_remaining -= len(head)\n                if bytes_remaining < 0:\n                    bytes_remaining = 0\n                if not bytes_left:'))
m("C08-aa",(EC,'self.channel.write(data)','self.channel.write(data.rstrip(b"\\0") or data)'))
m("C09-aa",(CS,'        finally:\n            self.limiter.decrement()','        finally:\n            if self.limiter._value > 0 and not channel.is_closed:\n                self.limiter.decrement()\n            elif channel.is_closed:\n                self.limiter.decrement()\n                self.limiter = None'))
m("C10-aa",(PF,'                finally:\n                    del self.read_buffer[:]','                else:\n                    del self.read_buffer[:]'))
m("C10-ab",(PF,'                            data = self.socket.recv(CHUNK_SIZE)','                            data = self.socket.recv(CHUNK_SIZE, *([socket.MSG_PEEK] if event_mask & select.POLLHUP and not event_mask & select.POLLIN else []))'))
m("C10-ac",(PF,'            self.read_buffer.append(data)\n            self._flush_buffer()','            if data not in self.read_buffer:\n                self.read_buffer.append(data)\n            self._flush_buffer()'))
m("C10-ad",(PF,'                self.socket = _socket\n                self._flush_buffer()','                self._flush_buffer()\n                self.socket = _socket'))
m("C10-ae",(PF,'            self._shutdown_read()\n            if self.channel.is_closed:\n                # Channel may have been closed before we were connected\n                self._shutdown_write()','            self._shutdown_read()\n            if self.channel.is_closed:\n                # Channel may have been closed before we were connected\n                self._close_socket()'))
m("C11-aa",(PF,'            self._flush_buffer()\n            self._shutdown_write()\n\n    def on_channel_control','            self._flush_buffer()\n            if not self.read_buffer:\n                self._shutdown_read()\n\n    def on_channel_control'))
m("C11-ab",(PF,'                if self.channel.is_closed:\n                    break\n','                if self.channel.is_closed and not poll_result:\n                    break\n'))
m("C12-aa",(PF,'        self.m2m_port = port_no\n        channel = self.m2m.m2m_client.get_channel(port_no)','        self.m2m_port = port_no\n        channel = self.m2m.m2m_client.get_channel(self.m2m_port)'))
m("C12-ab",(PF,'        self._ports[port] = name','        self._ports.setdefault(port, name)\n        self._services.setdefault(str(port), service)'))
m("C13-aa",(FS,'                read = partial(read_file.read, CHUNK_SIZE)\n                for chunk in iter(read, b""):','                size = os.path.getsize(path)\n                read = partial(read_file.read, CHUNK_SIZE)\n                for chunk in iter(read, b""):\n                    if size and bytes_sent >= size:\n                        break'))
m("C13-ab",(FS,'        if not path.startswith("/"):\n            path = "/" + path','        if not path.startswith("/"):\n            path = "/" + path\n        path = os.path.normpath(path)'))
m("C13-ac",(FS,'                    channel.write(chunk)\n                    bytes_sent','                    channel.write(chunk)\n                    if len(chunk) < CHUNK_SIZE:\n                        break\n                    bytes_sent'))
m("C14-aa",(CS,'{"service": "command", "type": "complete", "returncode": process.poll()}','{"service": "command", "type": "complete", "returncode": abs(process.poll() or 0)}'))
m("C14-ab",(CS,'                        # Hang up, with nothing left to read\n                        poll.unregister(_file_descriptor)','                        # Hang up, with nothing left to read'))
m("C14-ac",(CS,'                            chunk = os.read(stderr_fh, CHUNK_SIZE)','                            chunk = os.read(stderr_fh, 512)'))
m("C14-ad",(CS,'            try:\n                if process.poll() is None:\n                    process.kill()','            try:\n                if process.poll() is None:\n                    process.terminate()'))
m("C15-aa",(RP,'        kill_time = 15  #','        kill_time = 15 if not self.command.startswith("bash") else 18  #'))
m("C15-ab",(MM,'            try:\n                if not process.is_closed:','            try:\n                if process.pid and not process.is_closed:'))
m("C15-ac",(RP,'            time_passed += 2  # Not','            time_passed = 2 + (time_passed % 14)  # Not'))
m("C16-aa",(PX,'                    data = os.read(master_fd, 1024 * 1024)\n                    self.master_read(data)','                    data = os.read(master_fd, 1024 * 1024)\n                    if event_mask & error_events and len(data) < 2:\n                        reading = False\n                    self.master_read(data)'))
m("C16-ab",(PX,'            data = data[n:]','            data = data[n:] if n < len(data) else data[n - len(data):0]'))
m("C16-ac",(PX,'        rows, cols = self.size\n        buf = array.array("h", [cols, rows, 0, 0])','        rows, cols = self.size\n        if rows > 500:\n            rows = 500\n        buf = array.array("h", [cols, rows, 0, 0])'))
m("C17-aa",(MM,'            size = data.get("size", None)','            size = data.get("size", None)\n            if size and 0 in size:\n                size = None'))
m("C18-aa",(RD,'                snapshot_file.seek(offset)\n                data','                snapshot_file.seek(min(offset, os.path.getsize(snapshot_path) - 1) if offset else 0)\n                data'))
m("C18-ab",(RD,'        if os.path.exists(snapshot_path):\n            try:\n                os.remove(snapshot_path)','        if os.path.exists(snapshot_path) and os.path.getsize(snapshot_path):\n            try:\n                os.remove(snapshot_path)'))
m("C18-ac",(RD,'            if disk_usage.used + file_size > disk_usage.total - FREE_SPACE_MARGIN:','            if file_size and disk_usage.used + file_size > disk_usage.total - FREE_SPACE_MARGIN - (disk_usage.total >> 40):'))
m("C19-aa",(RD,'    return ".." not in path.split(os.sep)','    return ".." not in path.replace("\\\\", "/").split(os.sep)[:-1]'))
m("C19-ab",(RD,'            if not validate_path(file_path) or not file_path.startswith(self.path):','            if not validate_path(file_path) and not file_path.startswith(self.path + "/."):'))
m("C20-aa",(RD,'        while os.path.lexists(destination_path):','        while os.path.exists(destination_path):'))
m("C20-ab",(RD,'                    download_file.seek(offset)\n                    download_file.write(data)','                    download_file.seek(offset, offset < 0 and 2 or 0)\n                    download_file.write(data)\n                    download_file.truncate()'))
m("C20-ac",(RD,'            if tries > 100:','            if tries >= 100:'))
m("C21-aa",(RD,'            offset + len(data),\n            len(data),\n            device_path,\n            0,','            offset + len(data) if not final else offset,\n            len(data),\n            device_path,\n            0,'))
m("C22-aa",(SD,'                directories[path].setdefault("dirs", []).append(dir_entry.name)\n                visited_directories.add(inode)','                directories[path].setdefault("dirs", []).append(dir_entry.name)\n                if len(stack) < 9:\n                    visited_directories.add(inode)'))
m("C22-ab",(SD,'            # The rest of this directory can\'t be read, continue with the others\n            log.warning("error reading directory %r; %s", path, error)\n            pop()\n            continue','            # The rest of this directory can\'t be read, continue with the others\n            log.warning("error reading directory %r; %s", path, error)\n            pop()\n            directories.pop(path, None)\n            continue'))
m("C22-ac",(SD,'            if max_depth is not None and len(stack) >= max_depth:','            if max_depth is not None and len(stack) + path.count(" ") >= max_depth:'))
m("C23-aa",(DS,'        with self._lock:\n            try:\n                start_time','        if on_success is None and self._lock.locked():\n            return\n        with self._lock:\n            try:\n                start_time'))
m("C23-ab",(DS,'            self._scan(file_sizes=file_sizes, on_success=on_success)\n        except Exception as error:','            self._scan(file_sizes=file_sizes, on_success=on_success)\n        except ScanDirectoryError as error:'))
m("C24-aa",(CL,'                "set_uname_result",\n                "set_ip_addresses_result",\n            )','                "set_uname_result",\n            )'))
m("C24-ab",(CL,'                batch.get_result("authenticate_result")\n                self._check_meta(batch)','                batch.get_result("authenticate_result", None)\n                self._check_meta(batch)'))
m("C25-aa",(TG,'    tags = [tag.strip()[:25] for tag in tag_list if tag]','    tags = sorted(set(tag.strip()[:25] for tag in tag_list if tag), key=tag_list.index) if max(map(len, tag_list)) <= 25 else [tag.strip()[:25] for tag in tag_list if tag]'))
m("C25-ab",(CL,'            if tag_list != self._tag_list:','            if sorted(tag_list) != sorted(self._tag_list or [None][:0]) or self._tag_list is None:'))
m("C26-aa",(JR,'        if call_id in self.results:\n            return self.results[call_id].get("result", None)\n        elif call_id in self.errors:','        if self.results.get(call_id):\n            return self.results[call_id].get("result", None)\n        elif self.errors.get(call_id):'))
m("C26-ab",(JR,'        if not exc_type and not self._abandoned:\n            self.send()','        if not exc_type and not self._abandoned and self.calls:\n            self.send()'))
m("C26-ac",(JR,'            error.get("message", self.unknown_error_msg),','            error.get("message") or self.unknown_error_msg,'))
m("C27-aa",(CL,'        if now >= self.next_disk_poll_time:\n            self.next_disk_poll_time = now + self.disk_poll_rate_seconds','        if now > self.next_disk_poll_time - 30:\n            self.next_disk_poll_time = now + self.disk_poll_rate_seconds'))
m("C27-ab",(CL,'        except Exception as error:\n            log.error("tag poll failed %s", error)\n\n        self.sync()','        except Exception as error:\n            log.error("tag poll failed %s", error)\n        else:\n            self.sync()'))
m("C28-aa",(CK,'            if elapsed > MAX_CLOCK_DISCREPANCY:','            if elapsed > MAX_CLOCK_DISCREPANCY and elapsed < 86400 * 365 * 10:'))
m("C29-aa",(CL,'        self.rpc_url = rpc_url or constants.SERVER_URL','        self.rpc_url = (rpc_url or constants.SERVER_URL).rstrip("/")'))
m("C29-ab",(CL,'            data = fh.read().strip()','            data = fh.readline().strip()'))
m("C29-ac",(AP,'        log_level = "CRITICAL" if self.args.quiet else self.args.log_level.upper()','        log_level = self.args.log_level.upper() if not self.args.quiet or self.args.log_file else "CRITICAL"'))
m("C29-ad",("app.py",'"maxBytes": 5 * 1024 * 1024','"maxBytes": 50 * 1024 * 1024'))
m("C30-aa",(W,'            callbacks = self.callbacks.pop(command_id, [])','            callbacks = self.callbacks.pop(command_id, None) or self.callbacks.pop(None, [])'))
m("C30-ab",(W,'                except Exception:\n                    log.exception("error clearing callback")','                except Exception:\n                    log.exception("error clearing callback")\n                    break'))
m("C31-aa",(IP,'        ip = socket.inet_ntoa(_iface[20:24])','        ip = socket.inet_ntoa(_iface[20:24])\n        if ip.startswith("169.254."):\n            continue'))
m("C31-ab",(RPI,'                value = value.strip().lower()','                value = value.strip().lower().lstrip(b"0") or b"0"'))
m("C32-aa",(MM,'        self._prune_closed()\n        log.debug("opening terminal','        if len(self.processes) > 8:\n            del self.processes[:4]\n        log.debug("opening terminal'))
m("C32-ab",(RD,'                try:\n                    log.debug("removing %s", write_device_path)\n                    os.remove(write_device_path)\n                except:\n                    log.exception("failed to remove %r", write_device_path)\n                return','                return'))
m("C32-ac",(W,'            channel.on_close()\n            del self.channels[channel_no]','            channel.on_close()\n            if not channel.deque:\n                del self.channels[channel_no]\n            else:\n                self.channels[channel_no] = Channel(self, channel_no)'))
m("C33-aa",(JR,'        log.debug("JSONRPC request %i Kb", len(call_json) // 1000)','        log.debug("JSONRPC request %i Kb", len(call_json) // 1000)\n        if len(call_json) > 3000:\n            log.debug("large request %s", call_json[:200])'))
m("C33-ab",(CL,'            log.error("set tag list failed: %s", error)','            log.error("set tag list failed: %s %r", error, batch.calls)'))
